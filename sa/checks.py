"""The properties, one check each."""
from chk import *

# ------------------------------------------------------------------ C01, C02: header


def _accepted(w, M, r):
    """(guard, message value) for a decoded message that is not broken."""
    og, m, eg, e = w.L.res(r)
    return og, m


def class_is(w, M, v, cb):
    """The condition under which MessageClass v is not the one of the two bits."""
    t = w.L.T[w.L.ty("message::MessageClass")]
    d = 0
    for i, x in enumerate(t.j["variants"]):
        d = OR(d, AND(w.pc, XOR(v.g.get(i, 0), eqc(cb, CLASSES[x["name"]]))))
    return d


@check("C01", ["encode an attribute-less message for all classes and methods: bytes 0-1 equal the interleaved type of RFC 5389 section 6",
               "decode a 20-byte header with all 2^16 type values: accepted iff the two top bits are zero; class and method are the interleaved bits"],
       floor=8)
def c01(L, tier):
    out = []
    for s in SET_NAMES:
        def enc(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            p = Parts(w, M)
            k = "encode " + s
            ep, og, eg = M.encode_msg(w, p.mp)
            R.require(w, k + ": accepted", AND(w.care, NOT(og)), "an attribute-less message is not encoded")
            w.st.pc = AND(w.pc, og)
            n, og, o, buf = M.drain(w, ep)
            got = w.read(buf)
            w.st.pc = AND(w.pc, og)
            R.require(w, k + ": type word", AND(w.pc, NOT(eq(cat([seq_get(got, k64(0), w.pc), seq_get(got, k64(1), w.pc)]), type_word(p.cb, p.mb)))),
                      "the message type is not the RFC 5389 interleaving of class and method")
            no_panic(R, w, k)

        def dec(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            k = "decode " + s
            W = Wire(w)
            typ = w.bits(16, "type")
            acc, r, n, rej = decode(w, M, W.bytes(typ=typ))
            want = AND(NOT(typ.b[15]), NOT(typ.b[14]))
            og, m = _accepted(w, M, r)
            got = AND(acc, og)
            R.require(w, k + ": acceptance", XOR(got, want), "a message type is accepted although its top bits are set, or rejected although they are zero")
            w.st.pc = AND(w.pc, og)
            cb = BV((typ.b[4], typ.b[8]))
            mb = BV(typ.b[0:4] + typ.b[5:8] + typ.b[9:14])
            R.require(w, k + ": class", class_is(w, M, M.get(w, m, "class"), cb), "the decoded class is not that of bits 4 and 8")
            mv = M.get(w, m, "method")
            asu = w.call(L.method(None, "as_u16", L.ty("method::Method")), mv)
            R.require(w, k + ": method", differs(w, asu, zext(mb, 16), w.pc), "the decoded method is not that of the remaining bits")
            no_panic(R, w, k)
        out += [("encode " + s, enc), ("decode " + s, dec)]
    return out


def tid_of(w, M, m):
    """The 12 bytes of a message's transaction id, through its public accessors."""
    t = M.get(w, m, "transaction_id")
    i = w.L.method(None, "as_bytes", w.L.ty("transaction_id::TransactionId"))
    v = w.call(i, w.obj(t) if w.L.T[i.body["locals"][1]].k == "ref" else t)
    return list(w.read(v).v) if type(v) is Ptr else list(v.v)


def check_identity(R, w, M, m, cb, mb, tb, k, what="the message"):
    R.require(w, k + ": class", class_is(w, M, M.get(w, m, "class"), cb), what + " has another class than the header")
    asu = w.call(w.L.method(None, "as_u16", w.L.ty("method::Method")), M.get(w, m, "method"))
    R.require(w, k + ": method", differs(w, asu, zext(mb, 16), w.pc), what + " has another method than the header")
    R.require(w, k + ": transaction id", differs(w, tid_of(w, M, m), tb, w.pc), what + " has another transaction id than the header")


RAW = 0x7FFE        # an attribute type that no set knows


@check("C02", ["encode: bytes 0-19 are type, length, magic cookie, transaction id, for every message of one attribute",
               "decode a fully symbolic 20-byte header: accepted iff type and cookie are valid; identity read from those positions",
               "decode a message of symbolic length followed by arbitrary bytes: exactly 20 + length bytes are consumed"],
       floor=12)
def c02(L, tier):
    out = []
    for s in SET_NAMES:
        def enc(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            p = Parts(w, M)
            a = [a for a in M.members() if a.kind in ("text128", "bytes", "u64", "addr")][0]
            p.add(a, a.short)
            k = "encode " + s
            ep, og, eg = M.encode_msg(w, p.mp)
            R.require(w, k + ": accepted", AND(AND(w.care, ult(seq_len(p.wire), k64(0x10000))), NOT(og)), "a message that fits is not encoded")
            w.st.pc = AND(w.pc, og)
            n, og, o, buf = M.drain(w, ep)
            w.st.pc = AND(w.pc, og)
            got = w.read(buf)
            want = p.bytes()
            for nm, lo, hi in (("type", 0, 2), ("length", 2, 4), ("cookie", 4, 8), ("transaction id", 8, 20)):
                R.require(w, k + ": " + nm, differs(w, [seq_get(got, k64(i), w.pc) for i in range(lo, hi)], [seq_get(want, k64(i), w.pc) for i in range(lo, hi)], w.pc),
                          "the %s of the header is wrong" % nm)
            no_panic(R, w, k)

        def dec(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            k = "decode header " + s
            hdr = [w.bits(8, "h[%d]" % i) for i in range(20)]
            hdr[2:4] = zero(2)
            acc, r, n, rej = decode(w, M, seq_of(hdr))
            og, m = _accepted(w, M, r)
            want = AND(eq(of_be(hdr[4:8]), const(COOKIE, 32)), AND(NOT(hdr[0].b[7]), NOT(hdr[0].b[6])))
            R.require(w, k + ": acceptance", XOR(AND(acc, og), want), "a header is accepted or rejected although its type and cookie say otherwise")
            w.st.pc = AND(w.pc, og)
            typ = of_be(hdr[0:2])
            check_identity(R, w, M, m, BV((typ.b[4], typ.b[8])), BV(typ.b[0:4] + typ.b[5:8] + typ.b[9:14]), hdr[8:20], k)
            no_panic(R, w, k)

        def length(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            k = "decode length " + s
            n = w.length("value length", 16)
            W = Wire(w)
            W.attr(RAW, w.bytes("value", n))
            ml = seq_len(W.body)
            w.assume(ult(ml, k64(0x10000)))
            junk = w.bytes("junk", w.length("junk length", 8))
            ck = w.bits(32, "cookie")
            seq = seq_cat(W.bytes(cookie=be(ck)), junk, w.pc)
            acc, r, used, rej = decode(w, M, seq, eos=False)
            og, m = _accepted(w, M, r)
            R.require(w, k + ": acceptance", XOR(AND(acc, og), AND(w.care, eq(ck, const(COOKIE, 32)))), "a message is accepted or rejected although its cookie says otherwise")
            w.st.pc = AND(w.pc, og)
            R.require(w, k + ": consumed", differs(w, used, add(k64(20), ml)[0], w.pc), "other than 20 + length bytes are consumed")
            check_identity(R, w, M, m, W.cb, W.mb, W.tb, k)
            no_panic(R, w, k)
        out += [("encode " + s, enc), ("decode header " + s, dec), ("decode length " + s, length)]
    return out


# ------------------------------------------------------------------ C03, C04: sizes and padding


def encode_one(R, w, M, a, k, model=None, full=True):
    """Encode a message of one attribute against its wire format. Returns the parts, or None when refused."""
    p = Parts(w, M)
    m, v = p.add(a, a.short, model)
    ep, og, eg = M.encode_msg(w, p.mp)
    return p, m, ep, og


def fits(p, a, m):
    """All 16-bit length fields of a one-attribute message are large enough."""
    n = seq_len(p.wire)
    val = seq_len(a.wire(m))
    return AND(ult(n, k64(0x10000)), ult(val, k64(0x10000)))


def long_model(w, a, nm):
    """As a.model, but with lengths beyond 16 bits where a value of this type can be that long."""
    if a.kind == "error":
        c = w.bits(16, nm + ".code")
        w.assume(AND(NOT(ult(c, const(300, 16))), ult(c, const(600, 16))))
        return {"code": c, "text": w.text(nm + ".reason", (1 << 17) - 1, 17)}
    return a.model(w, nm)


@check("C03", ["for every attribute type: attribute length = value bytes, message length = attributes with padding",
               "encoding is refused exactly when an attribute value or the attribute list needs more than 65535 bytes",
               "building a fingerprint or message integrity is refused exactly when the adjusted length does not fit"],
       floor=28)
def c03(L, tier):
    out = []
    for s in SET_NAMES:
        for a in Msgs(L, s).members():
            if a.kind in ("mi", "fp"):
                continue

            def one(R, s=s, a=a):
                w = World(L)
                M = Msgs(L, s)
                k = "%s %s" % (short_set(s), a.short)
                m = long_model(w, a, a.short)
                p, m, ep, og = encode_one(R, w, M, a, k, m)
                fit = AND(fits(p, a, m), w.care)
                R.require(w, k + ": accepted iff it fits", AND(w.care, XOR(AND(w.pc, og), fit)), "a size that does not fit its field is accepted, or one that does is refused")
                w.st.pc = AND(w.pc, og)
                n, og, o, buf = M.drain(w, ep)
                w.st.pc = AND(w.pc, og)
                got = w.read(buf)
                at = lambda i: cat([seq_get(got, k64(i), w.pc), seq_get(got, k64(i + 1), w.pc)])
                val = p.wire
                R.require(w, k + ": message length field", differs(w, at(2), trunc(seq_len(p.wire), 16), w.pc), "the message length is not that of the attributes")
                R.require(w, k + ": attribute length field", differs(w, at(22), trunc(seq_len(a.wire(m)), 16), w.pc), "the attribute length is not that of the value")
                R.require(w, k + ": bytes follow the header", differs(w, sub(n, k64(20))[0], seq_len(p.wire), w.pc), "other bytes follow the header than its length says")
                no_panic(R, w, k)
            out.append(("%s %s" % (short_set(s), a.short), one))

    def raw(R):
        w = World(L)
        M = Msgs(L, "attribute::RawAttribute")
        k = "two raw attributes"
        p = Parts(w, M)
        ms = [p.add(RAW_ATTR, "raw%d" % i)[0] for i in range(2)]
        ep, og, eg = M.encode_msg(w, p.mp)
        fit = w.care
        for m in ms:
            fit = AND(fit, ult(seq_len(m["bytes"]), k64(0x10000)))
        fit = AND(fit, ult(seq_len(p.wire), k64(0x10000)))
        R.require(w, k + ": accepted iff they fit", XOR(AND(w.pc, og), fit), "a size that does not fit its field is accepted, or one that does is refused")
        w.st.pc = AND(w.pc, og)
        n, og, o, buf = M.drain(w, ep)
        R.require(w, k + ": written", AND(w.pc, NOT(og)), "writing fails")
        w.st.pc = AND(w.pc, og)
        want = p.bytes()
        R.require(w, k + ": size", differs(w, n, seq_len(want), w.pc), "another size is announced")
        R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "length fields, values or padding are wrong")
        no_panic(R, w, k)
    out.append(("two raw attributes", raw))
    return out


def reencode(R, w, M, msg, want, k, what="encoding a decoded message"):
    """Encoding this message gives these bytes."""
    ep, og, eg = M.encode_msg(w, w.obj(msg))
    R.require(w, k + ": re-encoding accepted", AND(w.pc, NOT(og)), what + " fails")
    w.st.pc = AND(w.pc, og)
    n, og, o, buf = M.drain(w, ep)
    R.require(w, k + ": re-encoding written", AND(w.pc, NOT(og)), what + " fails")
    w.st.pc = AND(w.pc, og)
    R.require(w, k + ": re-encoded size", differs(w, n, seq_len(want), w.pc), what + " gives another number of bytes")
    R.require(w, k + ": re-encoded bytes", differs(w, w.read(buf), want, w.pc), what + " gives other bytes")


def decoded(R, w, M, seq, k, cond=None, eos=True, dp=None):
    """Decode a well-formed message; requires that exactly cond (within care) is accepted. Returns the message."""
    acc, r, used, rej = decode(w, M, seq, eos, dp)
    if r is None:
        R.bad(k + ": accepted", "never accepted")
        raise Undecided("nothing further: never accepted")
    og, m, eg, e = w.L.res(r)
    want = w.care if cond is None else AND(w.care, cond)
    R.require(w, k + ": accepted", XOR(AND(acc, og), want), "a message is accepted that should not be, or the other way round")
    w.st.pc = AND(w.pc, og)
    return m, used


def is_variable(a):
    return a.kind in ("text128", "text513", "bytes", "error", "list", "raw")


@check("C04", ["encode every attribute type with all value lengths: value is followed by the missing bytes to a multiple of 4, all zero",
               "decode values of all lengths with arbitrary padding bytes, alone and followed by another attribute; re-encoding gives the same bytes"],
       floor=40)
def c04(L, tier):
    out = []
    for s in SET_NAMES + ["attribute::RawAttribute"]:
        for a in (Msgs(L, s).members() if s in MEMBERS else [RAW_ATTR]):
            if a.kind in ("mi", "fp"):
                continue

            def enc(R, s=s, a=a):
                w = World(L)
                M = Msgs(L, s)
                k = "encode %s %s" % (short_set(s), a.short)
                p, m, ep, og = encode_one(R, w, M, a, k)
                R.require(w, k + ": accepted", XOR(AND(w.pc, og), AND(w.care, fits(p, a, m))), "a message that fits is not encoded")
                w.st.pc = AND(w.pc, og)
                n, og, o, buf = M.drain(w, ep)
                R.require(w, k + ": written", AND(w.pc, NOT(og)), "writing fails")
                w.st.pc = AND(w.pc, og)
                want = p.bytes()
                R.require(w, k + ": size", differs(w, n, seq_len(want), w.pc), "the size is not that of the padded attribute")
                R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "value, padding or frame are wrong")
                no_panic(R, w, k)
            out.append(("encode %s %s" % (short_set(s), a.short), enc))
            if not is_variable(a) or a.kind == "list":
                continue

            def dec(R, s=s, a=a):
                w = World(L)
                M = Msgs(L, s)
                k = "decode %s %s" % (short_set(s), a.short)
                n = w.length("value length", 16)
                W = Wire(w)
                code = w.bits(16, "type") if a.code is None else a.code
                W.attr(code, w.bytes("value", n))
                w.assume(ult(seq_len(W.body), k64(0x10000)))
                ok = 1 if a.code is None else a.parse(w, "value", n)[0]
                if a.code is not None:
                    # What becomes of reserved bits is another property (C33).
                    w.assume(OR(NOT(ok), eqc(a.reserved(w, "value"), 0)))
                buf = W.bytes()
                m, used = decoded(R, w, M, buf, k, ok)
                R.require(w, k + ": consumed", differs(w, used, seq_len(buf), w.pc), "other bytes are consumed than value and padding")
                reencode(R, w, M, m, buf, k)
                no_panic(R, w, k)
            out.append(("decode %s %s" % (short_set(s), a.short), dec))

        def two(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            k = "decode two %s" % short_set(s)
            W = Wire(w)
            for i in range(2):
                W.attr(RAW, w.bytes("value%d" % i, w.length("length%d" % i, 16)))
            w.assume(ult(seq_len(W.body), k64(0x10000)))
            buf = W.bytes()
            m, used = decoded(R, w, M, buf, k)
            reencode(R, w, M, m, buf, k)
            no_panic(R, w, k)
        out.append(("decode two %s" % short_set(s), two))
    return out


# ------------------------------------------------------------------ C05, C06: code points and dispatch


def fresh_attr(w, a, nm=None):
    """A value of the attribute type, by its constructor where it has one."""
    nm = nm or a.short
    if a.kind == "mi":
        return w.ip.sym(a.tid(w.L), nm)
    if a.kind == "fp":
        return newtype(w, a.tid(w.L), w.bits(32, nm))
    return a.make(w, a.model(w, nm))


@check("C05", ["the type of every attribute value, its CODEPOINT constant and the tag its decoder accepts are the registered code point",
               "code points are pairwise different"], floor=33)
def c05(L, tier):
    out = []
    for a in ATTRS:
        def one(R, a=a):
            w = World(L)
            k = a.short
            v = fresh_attr(w, a)
            t = w.call(L.method("Attribute", "get_type", a.tid(L)), w.obj(v))
            R.require(w, k + ": type", differs(w, un_newtype(t), const(a.code, 16), w.pc), "the type of a value is not 0x%04x" % a.code)
            dp = w.obj(w.call(L.ctor("Default", "default", a.decoder(L))))
            tag = w.bits(16, "tag")
            v = w.call(L.method("TryTaggedDecode", "try_start_decoding", a.decoder(L)), dp, newtype(w, L.ty("attribute::AttributeType"), tag))
            og, ok, eg, e = L.res(v)
            R.require(w, k + ": tag is judged", AND(w.pc, NOT(og)), "asking for a tag fails")
            R.require(w, k + ": tag", AND(AND(w.pc, og), XOR(ok.b[0], eqc(tag, a.code))), "the decoder accepts other tags than 0x%04x" % a.code)
            no_panic(R, w, k)
            nm = L.impl_of(a.name)["name"] + "::CODEPOINT"
            if nm not in L.consts:
                R.bad(k + ": constant", "there is no constant " + nm)
            elif L.consts[nm] != a.code:
                R.bad(k + ": constant", "%s is 0x%04x, not 0x%04x" % (nm, L.consts[nm], a.code))
            else:
                R.good(k + ": constant")
        out.append((a.short, one))

    def distinct(R):
        seen = {}
        for a in ATTRS:
            c = L.consts.get(L.impl_of(a.name)["name"] + "::CODEPOINT")
            if c in seen:
                R.bad("distinct " + a.short, "shares its code point with " + seen[c])
            else:
                R.good("distinct " + a.short)
            seen[c] = a.short
    out.append(("distinct", distinct))
    return out


def set_from(L, M, a):
    """impl From<member> for set"""
    for i in L.P.methods.get("from", ()):
        if i.local and i.body and i.body["args"] == 1 and i.body["locals"][0] == M.set and i.body["locals"][1] == a.tid(L):
            return i
    raise Anchor("conversion of %s into %s" % (a.short, M.name))


def try_as(L, M, a):
    """impl TryAsRef<member> for set"""
    for i in L.P.methods.get("try_as_ref", ()):
        if i.local and i.body and L.self_ty(i) == M.set:
            r = L.T[i.body["locals"][0]]
            p = L.T[r.j["args"][0]]
            if p.k == "ref" and p.j["elem"] == a.tid(L):
                return i
    raise Anchor("view of %s as %s" % (M.name, a.short))


def hook_of(L, name, tid, msg):
    for i in L.P.methods.get(name, ()):
        if i.body and (i.j.get("trait") or "").split("<")[0].endswith("::Attribute") and L.self_ty(i) == tid:
            t = L.T[i.body["locals"][2]]
            if t.k == "ref" and t.j["elem"] == msg:
                return i
    raise Anchor("%s of %s" % (name, L.T[tid].name))


def fresh_result(w, inst, nm):
    """An arbitrary result of the function, with the given flag as the error condition."""
    return w.ip.sym(inst.body["locals"][0], nm)


@check("C06", ["for every set and member: conversion and views, type, hooks (which member hook is called, how often, on what, result passed on)",
               "the set decoder starts on exactly the codes of its members; encoder and decoder of a member are used for it (bytes, values)"],
       floor=33)
def c06(L, tier):
    out = []
    for s in SET_NAMES:
        for a in Msgs(L, s).members():
            def one(R, s=s, a=a):
                M = Msgs(L, s)
                k = "%s %s" % (short_set(s), a.short)
                w = World(L)
                v = fresh_attr(w, a)
                sv = w.call(set_from(L, M, a), v)
                sp = w.obj(sv)
                t = w.call(L.method("Attribute", "get_type", M.set), sp)
                R.require(w, k + ": type", differs(w, un_newtype(t), const(a.code, 16), w.pc), "the set reports another type for this member")
                for b in M.members():
                    r = w.call(try_as(L, M, b), sp)
                    some = r.g.get(1, 0)
                    if b is a:
                        R.require(w, k + ": view as itself", AND(w.pc, NOT(some)), "a member is not viewed back")
                        got = w.read(r.p[1][0])
                        R.require(w, k + ": viewed value", differs(w, got, v, w.pc), "the view shows another value")
                    else:
                        R.require(w, k + ": view as " + b.short, AND(w.pc, some), "a member is viewed as another one")
                no_panic(R, w, k)
                for hk in ("before_encode", "after_decode"):
                    hooks(R, L, M, a, hk, k)
            out.append(("%s %s" % (short_set(s), a.short), one))

        def tags(R, s=s):
            w = World(L)
            M = Msgs(L, s)
            k = "%s tags" % short_set(s)
            dec = L.impl_of(s)["assoc"]["Decoder"]
            for again in (0, 1):
                dp = w.obj(w.call(L.ctor("Default", "default", dec)))
                at = L.ty("attribute::AttributeType")
                start = L.method("TryTaggedDecode", "try_start_decoding", dec)
                kk = k
                if again:
                    kk = k + " after another"
                    first = [a for a in M.members()][-1]
                    w.call(start, dp, newtype(w, at, const(first.code, 16)))
                tag = w.bits(16, "tag")
                v = w.call(start, dp, newtype(w, at, tag))
                og, ok, eg, e = L.res(v)
                want = 0
                for a in M.members():
                    want = OR(want, eqc(tag, a.code))
                R.require(w, kk + ": judged", AND(w.pc, NOT(og)), "asking for a tag fails")
                R.require(w, kk + ": members", AND(AND(w.pc, og), XOR(ok.b[0], want)), "a code of no member is accepted or one of a member declined")
            no_panic(R, w, k)
        out.append(("%s tags" % short_set(s), tags))
        for a in Msgs(L, s).members():
            if a.kind in ("mi", "fp"):
                continue

            def codec(R, s=s, a=a):
                w = World(L)
                M = Msgs(L, s)
                k = "%s %s codec" % (short_set(s), a.short)
                p, m, ep, og = encode_one(R, w, M, a, k)
                w.st.pc = AND(w.pc, og)
                n, og, o, buf = M.drain(w, ep)
                w.st.pc = AND(w.pc, og)
                want = p.bytes()
                R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "a member is encoded in another way than its own")
                w.assume(AND(fits(p, a, m), 1))
                if a.kind == "list":
                    return
                m2, used = decoded(R, w, M, want, k)
                got, some = lookup(w, M, m2, a)
                R.require(w, k + ": found", AND(w.pc, NOT(some)), "what was encoded as this member is not decoded as it")
                w.st.pc = AND(w.pc, some)
                R.require(w, k + ": value", differs(w, a.expect(w, m), a.observe(w, got), w.pc), "a member is decoded in another way than its own")
            out.append(("%s %s codec" % (short_set(s), a.short), codec))
    return out


def lookup(w, M, msg, a):
    """message.get_attribute::<Member>(): (value, found)."""
    for i in w.L.P.methods.get("get_attribute", ()):
        if i.local and i.body and w.L.self_ty(i) == M.msg:
            r = w.L.T[i.body["locals"][0]]
            p = w.L.T[r.j["args"][0]]
            if p.k == "ref" and p.j["elem"] == a.tid(w.L):
                v = w.call(i, w.obj(msg))
                some = v.g.get(1, 0)
                return (w.read(v.p[1][0]) if some else None), some
    raise Anchor("get_attribute for " + a.name)


def hooks(R, L, M, a, hk, k):
    w = World(L)
    v = fresh_attr(w, a)
    sp = w.obj(w.call(set_from(L, M, a), v))
    p = Parts(w, M)
    log = []
    members = {b.tid(L): b for b in M.members()}

    def hook(ip, st, inst, args):
        if inst.assoc == hk and (inst.j.get("trait") or "").endswith("::Attribute"):
            t = L.self_ty(inst)
            if t in members:
                r = ip.sym(inst.body["locals"][0], "result%d" % len(log))
                log.append((members[t], st.pc, ip.deref_read(st, args[0]), args[1], r))
                return st, r
        return None
    w.ip.hook = hook
    r = w.call(hook_of(L, hk, M.set, M.msg), sp, p.mp)
    w.ip.hook = None
    mine = 0
    other = 0
    twice = 0
    for b, g, val, mp, res in log:
        if b is a:
            twice = OR(twice, AND(mine, g))
            mine = OR(mine, g)
        else:
            other = OR(other, g)
    R.require(w, "%s: %s called" % (k, hk), AND(w.pc, NOT(mine)), "the hook of the member is not called")
    R.require(w, "%s: %s called once" % (k, hk), AND(w.pc, twice), "the hook of the member is called twice")
    R.require(w, "%s: %s of no other" % (k, hk), AND(w.pc, other), "the hook of another member is called")
    for b, g, val, mp, res in log:
        if b is not a:
            continue
        w2 = AND(w.pc, g)
        R.require(w, "%s: %s on the value" % (k, hk), differs(w, val, v, w2), "the hook is called on another value")
        R.require(w, "%s: %s with the message" % (k, hk), differs(w, w.read(mp), w.read(p.mp), w2), "the hook is given another message")
        R.require(w, "%s: %s result" % (k, hk), AND(w2, XOR(res.g.get(1, 0), r.g.get(1, 0))), "the result of the hook is not passed on")


# ------------------------------------------------------------------ C07: unknown attributes


@check("C07", ["decode an attribute of symbolic code outside the set, symbolic value and padding, before, after and between known ones",
               "it appears as raw with its code and value, no typed lookup finds it, re-encoding gives the received bytes"], floor=16)
def c07(L, tier):
    out = []
    for s in SET_NAMES:
        for shape in ("u", "uk", "ku", "uku"):
            def one(R, s=s, shape=shape):
                w = World(L)
                M = Msgs(L, s)
                k = "%s %s" % (short_set(s), shape)
                W = Wire(w)
                known = [b for b in M.members() if b.kind in ("u64", "text128", "addr") and not b.xor][0]
                raws = []
                for i, c in enumerate(shape):
                    if c == "u":
                        code = w.bits(16, "type%d" % i)
                        for b in M.members():
                            w.assume(NOT(eqc(code, b.code)))
                        val = w.bytes("value%d" % i, w.length("length%d" % i, 16))
                        W.attr(code, val)
                        raws.append((code, val))
                    else:
                        km = known.model(w, known.short)
                        W.attr(known.code, known.wire(km), None)
                w.assume(ult(seq_len(W.body), k64(0x10000)))
                buf = W.bytes()
                m, used = decoded(R, w, M, buf, k)
                got = unknown_list(w, M, m, len(raws))
                R.require(w, k + ": number of raw attributes", differs(w, k64(len(got)), k64(len(raws)), w.pc), "an unknown attribute is lost, or a known one delivered raw")
                for i, ((code, val), rp) in enumerate(zip(raws, got)):
                    ob = RAW_ATTR.observe(w, w.read(rp))
                    R.require(w, "%s: type of raw %d" % (k, i), differs(w, ob["type"], code, w.pc), "a raw attribute has another type than received")
                    R.require(w, "%s: value of raw %d" % (k, i), differs(w, ob["bytes"], val, w.pc), "a raw attribute has another value than received")
                ks = known_list(w, M, m, shape.count("k"))
                R.require(w, k + ": number of known attributes", differs(w, k64(len(ks)), k64(shape.count("k")), w.pc), "a known attribute is lost, or an unknown one delivered as known")
                for b in M.members():
                    v, some = lookup(w, M, m, b)
                    R.require(w, "%s: lookup of %s" % (k, b.short), AND(w.pc, some if b is not known or "k" not in shape else NOT(some)), "a typed lookup finds an unknown attribute, or not the known one")
                reencode(R, w, M, m, buf, k)
                no_panic(R, w, k)
            out.append(("%s %s" % (short_set(s), shape), one))
    return out


def iterate(w, v, tid, expect=None):
    """All items of an iterator value. If there are `expect` items on some paths only, those of the others."""
    nxt = w.L.method("Iterator", "next", tid, opt=True)
    if nxt is None:
        raise Undecided("iterator " + w.L.T[tid].name)
    p = w.obj(v)
    out = []
    for i in range(max(20, (expect or 0) + 3)):
        r = w.call(nxt, p)
        some = AND(w.pc, r.g.get(1, 0))
        if some == 0:
            return out
        if AND(w.pc, NOT(some)):
            if expect is None:
                raise Undecided("the number of items depends on the input")
            if i < expect:
                w.st.pc = AND(w.pc, NOT(some))
                return out
            w.st.pc = some
        out.append(r.p[1][0])
    raise Undecided("too many items")


def list_of(w, M, msg, name, expect):
    i = w.L.method(None, name, M.msg)
    v = w.call(i, w.obj(msg))
    return iterate(w, v, i.body["locals"][0], expect)


def unknown_list(w, M, msg, expect=None):
    return list_of(w, M, msg, "unknown_attributes", expect)


def known_list(w, M, msg, expect=None):
    return list_of(w, M, msg, "attributes", expect)


# ------------------------------------------------------------------ C08 - C10: attribute values


def value_encode(R, L, a, k, model=None, chunks=None):
    """The encoder of the attribute on its own."""
    w = World(L, loop_limit=1500)
    if a.kind in ("mi", "fp"):
        n = 20 if a.kind == "mi" else 4
        raw = [w.bits(8, "%s[%d]" % (a.short, i)) for i in range(n)]
        v = sample_signature(w, a, raw)
        want = seq_of(raw)
    else:
        m = model(w) if model else a.model(w, a.short)
        v = a.make(w, m)
        want = a.wire(m)
    et = a.encoder(L)
    ep = w.obj(w.call(L.ctor("Default", "default", et)))
    v = w.call(L.method("Encode", "start_encoding", et), ep, v)
    og, o, eg, e = L.res(v)
    R.require(w, k + ": accepted", AND(w.care, NOT(AND(og, w.pc))), "a value is not encoded")
    w.st.pc = AND(w.pc, og)
    n = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    R.require(w, k + ": size", differs(w, n, seq_len(want), w.pc), "another size is announced")
    buf = w.obj(w.bytes("buffer", n))
    bp = Ptr(tuple((g, o, p, (k64(0), n)) for g, o, p, _ in buf.alts))
    v = w.call(L.method("Encode", "encode", et), ep, bp, w.ip.eos(True))
    og, r, eg, e = L.res(v)
    R.require(w, k + ": written", AND(w.pc, OR(NOT(og), NOT(eq(r, n)))), "writing fails or stops early")
    w.st.pc = AND(w.pc, og)
    R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "the value is not written as the RFC lays it out")
    no_panic(R, w, k)


def sample_signature(w, a, raw):
    """A Fingerprint or MessageIntegrity with these value bytes, as its decoder makes it."""
    L = w.L
    dt = a.decoder(L)
    dp = w.obj(w.call(L.ctor("Default", "default", dt)))
    v = w.call(L.method("Decode", "decode", dt), dp, w.slice_of(seq_of(raw)), w.ip.eos(True))
    og, n, eg, e = L.res(v)
    w.st.pc = AND(w.pc, og)
    return w.call_ok(L.method("Decode", "finish_decoding", dt), dp)


def value_lengths(w, a, bound=6):
    """The length of a received value: any, except for the list of types."""
    n = w.length("value length", 16)
    if a.kind == "list":
        w.assume(NOT(ult(k64(bound), n)))
    return n


def parse_list(w, name, n, bound):
    """UNKNOWN-ATTRIBUTES of at most `bound` bytes."""
    at = w.L.ty("attribute::AttributeType")
    al = []
    for i in range(bound // 2 + 1):
        vs = tuple(newtype(w, at, of_be([w.byte(name, 2 * j), w.byte(name, 2 * j + 1)])) for j in range(i))
        al.append((eqc(n, 2 * i), (("L", vs),) if vs else ()))
    return NOT(n.b[0]), {"list": Seq(tuple(a for a in al if a[0]))}


def parse(w, a, name, n, bound=6):
    if a.kind == "list":
        return parse_list(w, name, n, bound)
    return a.parse(w, name, n)


def expect(w, a, m):
    return m if a.kind == "list" else a.expect(w, m)


def value_decode(R, L, a, k, bound=6, exact=None):
    """The decoder of the attribute on its own, on values of any length and content."""
    w = World(L, loop_limit=max(300, (exact or 0) + 10))
    n = value_lengths(w, a, bound) if exact is None else k64(exact)
    acc, m = parse(w, a, "value", n, bound) if exact is None else (1, {"list": seq_of(newtype(w, L.ty("attribute::AttributeType"), of_be([w.byte("value", i), w.byte("value", i + 1)])) for i in range(0, exact, 2))})
    dt = a.decoder(L)
    dp = w.obj(w.call(L.ctor("Default", "default", dt)))
    v = w.call(L.method("Decode", "decode", dt), dp, w.slice_of(w.bytes("value", n)), w.ip.eos(True))
    og, used, eg, e = L.res(v)
    full = AND(AND(w.pc, og), eq(used, n))
    w.st.pc = full
    got = 0
    if full:
        v = w.call(L.method("Decode", "finish_decoding", dt), dp)
        og, o, eg, e = L.res(v)
        got = AND(w.pc, og)
    R.require(w, k + ": accepted iff well-formed", XOR(got, AND(acc, w.care)), "a malformed value is accepted or a well-formed one rejected")
    w.st.pc = got
    if got:
        R.require(w, k + ": value", differs(w, expect(w, a, m), a.observe(w, o), w.pc), "the value read is not the one the bits define")
    no_panic(R, w, k)


def message_decode(R, L, s, a, k, bound=6, values=True, accept=True, identity=False):
    """A message of one attribute with any value: accepted, or reported broken."""
    w = World(L)
    M = Msgs(L, s)
    n = value_lengths(w, a, bound)
    W = Wire(w)
    W.attr(a.code, w.bytes("value", n))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    acc, m = parse(w, a, "value", n, bound)
    if a.xor:
        m = {"addr": m["addr"].xor(W.tb)}
    buf = W.bytes()
    ok, r, used, rej = decode(w, M, buf)
    R.require(w, k + ": decoding ends", XOR(ok, w.care), "a well-framed message is rejected as a whole")
    if r is None:
        return w
    R.require(w, k + ": consumed", differs(w, used, seq_len(buf), w.pc), "other bytes are consumed than the message has")
    og, msg, eg, broken = L.res(r)
    if accept:
        R.require(w, k + ": broken iff malformed", AND(w.pc, XOR(og, acc)), "a malformed value is accepted or a well-formed one reported as broken")
    st = w.st.fork(w.pc)
    if identity:
        w.st.pc = AND(w.pc, eg)
        if w.pc:
            check_identity_broken(R, w, M, broken, W, k)
        w.st = st
    w.st.pc = AND(w.pc, og)
    if values:
        got, some = lookup(w, M, msg, a)
        R.require(w, k + ": found", AND(w.pc, NOT(some)), "the attribute is not in the message")
        w.st.pc = AND(w.pc, some)
        R.require(w, k + ": value", differs(w, expect(w, a, m), a.observe(w, got), w.pc), "the value read is not the one the bits define")
    no_panic(R, w, k)
    return w


def message_encode(R, L, s, a, k):
    """A message of one attribute with any value, against its bytes."""
    w = World(L)
    M = Msgs(L, s)
    p, m, ep, og = encode_one(R, w, M, a, k)
    R.require(w, k + ": accepted", XOR(AND(w.pc, og), AND(w.care, fits(p, a, m))), "a message that fits is not encoded")
    w.st.pc = AND(w.pc, og)
    n, og, o, buf = M.drain(w, ep)
    R.require(w, k + ": written", AND(w.pc, NOT(og)), "writing fails")
    w.st.pc = AND(w.pc, og)
    want = p.bytes()
    R.require(w, k + ": size", differs(w, n, seq_len(want), w.pc), "another size is announced")
    R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "the message is not written as the RFC lays it out")
    no_panic(R, w, k)


def plain_members(L, s):
    return [a for a in Msgs(L, s).members() if a.kind not in ("mi", "fp")]


@check("C08", ["the encoder of every attribute type, on every value: bytes = layout of the RFC", "the same inside a message of every set (with the set's dispatch and hooks)"], floor=60)
def c08(L, tier):
    out = []
    for a in ATTRS:
        out.append((a.short, lambda R, a=a: value_encode(R, L, a, a.short)))
        if a.kind == "list":
            for n in LIST_LENGTHS(tier):
                out.append(("%s of %d" % (a.short, n), lambda R, a=a, n=n: value_encode(R, L, a, "%s of %d" % (a.short, n), lambda w: long_list(w, a, n))))
    for s in SET_NAMES:
        for a in plain_members(L, s):
            out.append(("message %s %s" % (short_set(s), a.short),
                        lambda R, s=s, a=a: message_encode(R, L, s, a, "message %s %s" % (short_set(s), a.short))))
    return out


def LIST_LENGTHS(tier):
    return (12, 70, 520) if tier == "quick" else (12, 40, 70, 290, 1200)


def long_list(w, a, n, nm=""):
    return {"list": (const(n, 15), [w.bits(16, "%st%d" % (nm, i)) for i in range(n)]), "fixed": n}


@check("C09", ["the decoder of every attribute type on values of any length and content: the accessors show what the RFC reads from those bits",
               "the same inside a message of every set", "decoding what was encoded gives the same value"], floor=80)
def c09(L, tier):
    out = []
    b = 8 if tier == "quick" else 24
    for a in PLAIN:
        out.append((a.short, lambda R, a=a: value_decode(R, L, a, a.short, b)))
        if a.kind == "list":
            for n in LIST_LENGTHS(tier):
                out.append(("%s of %d" % (a.short, n), lambda R, a=a, n=n: value_decode(R, L, a, "%s of %d" % (a.short, n), exact=2 * n)))
        out.append(("round trip " + a.short, lambda R, a=a: round_trip(R, L, a, "round trip " + a.short)))
    for s in SET_NAMES:
        for a in plain_members(L, s):
            out.append(("message %s %s" % (short_set(s), a.short),
                        lambda R, s=s, a=a: message_decode(R, L, s, a, "message %s %s" % (short_set(s), a.short), 6, accept=False)))
    return out


def round_trip(R, L, a, k):
    w = World(L)
    m = a.model(w, a.short)
    v = a.make(w, m)
    et, dt = a.encoder(L), a.decoder(L)
    ep = w.obj(w.call(L.ctor("Default", "default", et)))
    w.call_ok(L.method("Encode", "start_encoding", et), ep, v)
    n = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    buf = w.obj(w.bytes("buffer", n))
    bp = Ptr(tuple((g, o, p, (k64(0), n)) for g, o, p, _ in buf.alts))
    w.call_ok(L.method("Encode", "encode", et), ep, bp, w.ip.eos(True))
    dp = w.obj(w.call(L.ctor("Default", "default", dt)))
    v = w.call(L.method("Decode", "decode", dt), dp, bp, w.ip.eos(True))
    og, used, eg, e = L.res(v)
    R.require(w, k + ": decoded", AND(w.pc, OR(NOT(og), NOT(eq(used, n)))), "what was encoded is not decoded")
    w.st.pc = AND(w.pc, og)
    v = w.call(L.method("Decode", "finish_decoding", dt), dp)
    og, o, eg, e = L.res(v)
    R.require(w, k + ": accepted", AND(w.pc, NOT(og)), "what was encoded is not accepted")
    w.st.pc = AND(w.pc, og)
    R.require(w, k + ": same value", differs(w, a.expect(w, m), a.observe(w, o), w.pc), "decoding what was encoded gives another value")


@check("C10", ["the decoder of every attribute type on values of any length and content: accepted exactly when well-formed",
               "inside a message of every set: the message is broken exactly when the value is malformed"], floor=55)
def c10(L, tier):
    out = []
    b = 9 if tier == "quick" else 25
    for a in PLAIN:
        out.append((a.short, lambda R, a=a: value_decode(R, L, a, a.short, b)))
    for s in SET_NAMES:
        for a in plain_members(L, s):
            out.append(("message %s %s" % (short_set(s), a.short),
                        lambda R, s=s, a=a: message_decode(R, L, s, a, "message %s %s" % (short_set(s), a.short), 7, values=False)))
    return out
