"""Nothing panics."""
from checks_hooks import *
from checks_sign import Credentials, checked, signer, SIGNED, name_of
from checks import long_model
from checks_values import c13
from interp import merge_states


def accessors(w, a):
    """Inherent methods of an attribute type that take nothing but the value."""
    L = w.L
    t = a.tid(L)
    out = []
    for i in L.P.insts:
        if i.local and i.body and i.j.get("trait") is None and L.self_ty(i) == t and i.body["args"] == 1 and not i.closure:
            out.append(i)
    return out


def use_value(w, a, v):
    """Every accessor of a value; then it is encoded."""
    L = w.L
    for i in accessors(w, a):
        st = w.st.fork(w.pc)
        by_ref = L.T[i.body["locals"][1]].k == "ref"
        try:
            w.call(i, w.obj(v) if by_ref else v)
        except Diverges:
            pass
        w.st = st


def value_panics(R, L, a, k, n_cuts, eos):
    w = World(L)
    n = w.length("value length", 16) if a.kind != "list" else w.length("value length", 3)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    ps = pieces(w, w.bytes("value", n), cuts(w, n, n_cuts))
    f = L.method("Decode", "decode", dt)
    keep = []
    for j, c in enumerate(ps):
        v = w.call(f, dp, w.slice_of(c), w.ip.eos(eos and j == n_cuts))
        og, r, eg, e = L.res(v)
        # The rest of what was not consumed is not fed again; finishing early must be an error, too.
        for g in (AND(w.pc, NOT(og)),):
            if g:
                keep.append(w.st.fork(g))
        w.st.pc = AND(w.pc, og)
        if w.pc == 0:
            break
        requiring(w, "Decode", dt, dp)
        idle(w, "Decode", dt, dp)
    for s in keep:
        w.st = merge_states(w.st, s) if w.pc else s
    v = finish(w, dt, dp)
    og, o, eg, e = L.res(v)
    w.st.pc = AND(w.pc, og)
    if w.pc:
        use_value(w, a, o)
    no_panic(R, w, k)


def header_panics(R, L, s, k, n_cuts, eos):
    """Any bytes as a header, any two after it."""
    w = World(L)
    M = Msgs(L, s)
    dp = M.decoder(w)
    h = [w.bits(8, "header[%d]" % i) for i in range(20)]
    rest = w.bytes("rest", w.length("rest length", 2))
    buf = seq_cat(seq_of(h), rest, w.pc)
    n = w.length("total", 5)
    w.assume(NOT(ult(seq_len(buf), n)))
    buf = seq_slice(buf, k64(0), n, w.pc)
    feed_to_end(w, M, dp, pieces(w, buf, cuts(w, n, n_cuts)), eos)
    no_panic(R, w, k)


def feed_to_end(w, M, dp, ps, eos):
    """Feed pieces whatever comes of it, ask for sizes, and finish wherever decoding ended. Returns the outer result."""
    L = w.L
    f = L.method("Decode", "decode", M.dec)
    keep = []
    for j, c in enumerate(ps):
        v = w.call(f, dp, w.slice_of(c), w.ip.eos(eos and j == len(ps) - 1))
        og, r, eg, e = L.res(v)
        if AND(w.pc, NOT(og)):
            keep.append(w.st.fork(AND(w.pc, NOT(og))))
        w.st.pc = AND(w.pc, og)
        if w.pc == 0:
            break
        requiring(w, "Decode", M.dec, dp)
        idle(w, "Decode", M.dec, dp)
    for s in keep:
        w.st = merge_states(w.st, s) if w.pc else s
    return finish(w, M.dec, dp)


def message_panics(R, L, s, attrs, k, n_cuts, eos, bits, short):
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    for i, a in enumerate(attrs):
        n = w.length("length%d" % i, 3 if a.kind == "list" else bits)
        W.attr(a.code if a.code is not None else RAW, w.bytes("value%d" % i, n))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    if short:
        # The length field says less, or the stream ends early.
        c = w.length("end", bits + 1)
        w.assume(ult(c, seq_len(W.body)))
        full = seq_len(W.body)
        W.body = seq_slice(W.body, k64(0), c, w.pc)
        buf = W.bytes(length=full if short == "stream" else None)
    else:
        buf = W.bytes()
    dp = M.decoder(w)
    r = feed_to_end(w, M, dp, pieces(w, buf, cuts(w, seq_len(buf), n_cuts)), eos)
    og, r, eg, e = L.res(r)
    w.st.pc = AND(w.pc, og)
    if w.pc:
        og, msg, bad, broken = L.res(r)
        st = w.st.fork(w.pc)
        w.st.pc = AND(w.pc, bad)
        if w.pc:
            bt = broken_type(L, M)
            for nm in ("class", "method", "transaction_id", "error"):
                i = L.method(None, nm, bt)
                w.call(i, w.obj(broken) if L.T[i.body["locals"][1]].k == "ref" else broken)
        w.st = st
        w.st.pc = AND(w.pc, og)
        if w.pc:
            use_message(w, M, msg)
    no_panic(R, w, k)


def use_message(w, M, msg):
    L = w.L
    for nm in ("class", "method", "transaction_id"):
        M.get(w, msg, nm)
    for nm in ("attributes", "unknown_attributes"):
        i = L.method(None, nm, M.msg)
        p = w.obj(w.call(i, w.obj(msg)))
        nxt = L.method("Iterator", "next", i.body["locals"][0])
        for _ in range(4):
            w.call(nxt, p)
    for a in M.members():
        st = w.st.fork(w.pc)
        got, some = lookup(w, M, msg, a)
        w.st.pc = AND(w.pc, some)
        if w.pc:
            use_value(w, a, got)
            if a.kind == "mi":
                for long in (0, 1):
                    cr = Credentials(w, long, "l" if long else "s")
                    checked(w, got, cr)
        w.st = st


@check("C18", ["the decoder of every attribute type, on bytes of any length and content cut anywhere, with or without an announced end, finished wherever it stands; every accessor of what it accepts",
               "the message decoder of every set: any 20 header bytes (any type, length, cookie) cut anywhere; messages of one and two attributes of any type, known and unknown, with any values and length fields, ending anywhere (by the length field or the stream), cut anywhere; listing, lookups, accessors and credential checks of what is accepted, accessors of what is broken"],
       floor=150)
def c18(L, tier):
    deep = tier != "quick"
    out = []
    for a in ATTRS:
        for eos in (True, False):
            nm = "value %s %s" % (a.short, "end" if eos else "pause")
            out.append((nm, lambda R, a=a, eos=eos, nm=nm: value_panics(R, L, a, nm, 1 if not deep else 2, eos)))
    for s in SET_NAMES:
        for eos in (True, False):
            for nc in (0, 1):
                nm = "header %s %s %d" % (short_set(s), "end" if eos else "pause", nc)
                out.append((nm, lambda R, s=s, eos=eos, nc=nc, nm=nm: header_panics(R, L, s, nm, nc, eos)))
        ms = Msgs(L, s).members() + [RAW_ATTR]
        for i, a in enumerate(ms):
            for short in (None, "field", "stream"):
                nm = "message %s %s %s" % (short_set(s), a.short, short or "")
                out.append((nm, lambda R, s=s, a=a, nm=nm, short=short: message_panics(R, L, s, [a], nm, 0 if short is None else 1, True, 9 if short is None else 5, short)))
                if deep:
                    out.append((nm + " pause", lambda R, s=s, a=a, nm=nm, short=short: message_panics(R, L, s, [a], nm + " pause", 1, False, 7 if short is None else 5, short)))
            for b in (ms if deep else [a, ms[(i + 1) % len(ms)], RAW_ATTR]):
                nm = "two %s %s %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: message_panics(R, L, s, [a, b], nm, 0, True, 4, "field")))
    return out


# ------------------------------------------------------------------ encoding


def write_anywhere(w, et, ep, size, n_cuts, nm):
    """Encode into buffers of any sizes, each announced as the last or not."""
    L = w.L
    f = L.method("Encode", "encode", et)
    room = w.length(nm + " room", 2)
    at = []
    prev = None
    total = add(size, room)[0]
    for i, c in enumerate(cuts(w, size, n_cuts, nm + " end")):
        at.append(c)
    bp = w.obj(w.bytes(nm, total))
    pos = k64(0)
    for j, c in enumerate(at + [total]):
        end = w.flag("%s last%d" % (nm, j))
        st = w.st
        res = []
        for flag, g in ((True, end), (False, NOT(end))):
            q = AND(st.pc, g)
            if q == 0:
                continue
            w.st = st.fork(q)
            w.call(f, ep, window(bp, pos, sub(c, pos)[0]), w.ip.eos(flag))
            requiring(w, "Encode", et, ep)
            idle(w, "Encode", et, ep)
            res.append(w.st)
        w.st = res[0]
        for s in res[1:]:
            w.st = merge_states(w.st, s)
        pos = c
    return bp


def value_encode_panics(R, L, a, k, n_cuts):
    w = World(L)
    if a.kind in ("mi", "fp"):
        v = sample_signature(w, a, [w.bits(8, "%s[%d]" % (a.short, i)) for i in range(20 if a.kind == "mi" else 4)])
    else:
        m = long_model(w, a, a.short)
        v = a.make(w, m)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    f = L.method("Encode", "start_encoding", et)
    w.call(f, ep, v)
    n = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    write_anywhere(w, et, ep, n, n_cuts, "buffer")
    # Starting again, whether or not everything was written.
    w.call(f, ep, v)
    no_panic(R, w, k)


def message_encode_panics(R, L, s, attrs, k, n_cuts, long):
    w = World(L)
    M = Msgs(L, s)
    p = Parts(w, M)
    for i, a in enumerate(attrs):
        nm = "%s%d" % (a.short, i)
        p.add(a, nm, long_model(w, a, nm) if long else None)
    ep = M.encoder(w)
    v = M.start(w, ep, w.read(p.mp))
    n = M.size(w, ep)
    write_anywhere(w, M.enc, ep, n, n_cuts, "buffer")
    M.start(w, ep, w.read(p.mp))
    no_panic(R, w, k)


def sign_panics(R, L, s, attrs, k):
    w = World(L)
    M = Msgs(L, s)
    p = Parts(w, M)
    for i, a in enumerate(attrs):
        nm = "%s%d" % (a.short, i)
        p.add(a, nm, long_model(w, a, nm))
    w.call(signer(L, "new", FP.tid(L), M.msg), p.mp)
    for long in (0, 1):
        cr = Credentials(w, long, "l" if long else "s")
        w.call(signer(L, cr.name("new"), MI.tid(L), M.msg), p.mp, *cr.args())
    no_panic(R, w, k)


def signed_panics(R, L, k, first, then):
    """A message that has signatures already is signed again and encoded."""
    w = World(L)
    s = SIGNED
    M = Msgs(L, s)
    p = Parts(w, M)
    p.add(BY_SHORT["Nonce"], "nonce")
    for a in (first, then):
        if a is FP:
            v = w.call_ok(signer(L, "new", FP.tid(L), M.msg), p.mp)
        else:
            cr = Credentials(w, 0, a.short + str(id(a) % 7))
            v = w.call_ok(signer(L, cr.name("new"), MI.tid(L), M.msg), p.mp, *cr.args())
        M.add(w, p.mp, a, v)
    ep = M.encoder(w)
    M.start(w, ep, w.read(p.mp))
    n = M.size(w, ep)
    write_anywhere(w, M.enc, ep, n, 0, "buffer")
    no_panic(R, w, k)


class PanicsOnly:
    """Keeps only the obligations about panics of what a task analyses."""

    def __init__(self, R):
        self.R = R

    def __getattr__(self, n):
        return getattr(self.R, n)

    def require(self, w, key, *a, **kw):
        if key.endswith(": no panic"):
            return self.R.require(w, key, *a, **kw)
        return True


@check("C19", ["every public constructor of an attribute, method, id or message on arguments of any value",
               "the encoder of every attribute type on every value that can be made, into two buffers of any sizes, each announced as the last or not; started again wherever that left it",
               "messages of every set of none, one and two attributes (values up to 2^17 bytes where a value can be that long), the same",
               "fingerprint and message integrity over such messages with any credentials, also over messages that are signed already"], floor=70)
def c19(L, tier):
    deep = tier != "quick"
    out = []
    for nm, f in c13(L, tier):
        out.append(("make " + nm, lambda R, f=f: f(PanicsOnly(R))))
    for a in ATTRS:
        nm = "value " + a.short
        out.append((nm, lambda R, a=a, nm=nm: value_encode_panics(R, L, a, nm, 1)))
    for s in SET_NAMES + ["attribute::RawAttribute"]:
        ms = [RAW_ATTR] if s.startswith("attribute") else plain_members(L, s)
        lists = [()] + [(a,) for a in ms]
        for i, a in enumerate(ms):
            lists += [(a, b) for b in (ms if deep else [ms[(i + 1) % len(ms)]])]
        for l in lists:
            nm = "message %s %s" % (short_set(s), name_of(l))
            out.append((nm, lambda R, s=s, l=l, nm=nm: message_encode_panics(R, L, s, l, nm, 0, len(l) < 2 or s.startswith("attribute"))))
            if len(l) == 1 and not s.startswith("attribute"):
                out.append((nm + " in pieces", lambda R, s=s, l=l, nm=nm: message_encode_panics(R, L, s, l, nm + " in pieces", 1, False)))
            nm = "sign %s %s" % (short_set(s), name_of(l))
            if len(l) < 2 or deep:
                out.append((nm, lambda R, s=s, l=l, nm=nm: sign_panics(R, L, s, l, nm)))
    for a in (FP, MI):
        for b in (FP, MI):
            nm = "signed %s then %s" % (a.short, b.short)
            out.append((nm, lambda R, a=a, b=b, nm=nm: signed_panics(R, L, nm, a, b)))
    return out
