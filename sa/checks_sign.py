"""Signatures: fingerprints, message integrity, credentials."""
from checks import *

FP, MI = BY_SHORT["Fingerprint"], BY_SHORT["MessageIntegrity"]
CRC32 = str(("crc", 32, 0x04C11DB7, 0xFFFFFFFF, 1, 1, 0xFFFFFFFF))
HMAC = "hmac-sha1"
SIGNED = "rfc5389::Attribute"


def signer(L, name, tid, msg):
    """An associated function that takes a message of this type by reference."""
    for i in L.P.methods.get(name, ()):
        if i.local and i.body and i.j.get("trait") is None and i.body["args"] >= 1:
            r = L.T[i.body["locals"][0]]
            if not (r.id == tid or (r.k == "adt" and r.j["def"].endswith("Result") and r.j["args"][:1] == [tid])):
                continue
            t = L.T[i.body["locals"][1]]
            if t.k == "ref" and t.j["elem"] == msg:
                return i
    raise Anchor("%s::%s for %s" % (L.T[tid].name, name, L.T[msg].name))


def covered(w, cb, mb, tb, body, extra):
    """What a signature covers: the header with the length that counts the signature, and the attributes before it."""
    return seq_cat(seq_of(header(cb, mb, add(seq_len(body), k64(extra))[0], tb)), body, w.pc)


def crc_of(w, seq):
    """The fingerprint of these bytes."""
    return bitop(XOR, w.ip.seq_fn(w.st, CRC32, [seq], 32), const(0x5354554E, 32))


def hmac_of(w, key, seq):
    b = w.ip.seq_fn(w.st, HMAC, [key, seq], 160)
    return [BV(b.b[8 * i:8 * i + 8]) for i in range(20)]


def long_key(w, user, realm, pw):
    colon = seq_of([const(0x3A, 8)])
    s = seq_cat(seq_cat(seq_cat(seq_cat(user, colon, w.pc), realm, w.pc), colon, w.pc), pw, w.pc)
    b = w.ip.seq_fn(w.st, "md5", [s], 128)
    return seq_of([BV(b.b[8 * i:8 * i + 8]) for i in range(16)])


class Credentials:
    def __init__(self, w, long, nm=""):
        L = w.L
        self.long = long
        self.w = w
        # Passwords have no limit; what is longer than this adds nothing.
        self.pw = w.text(nm + "password", 1000, 10)
        if long:
            self.user = w.text(nm + "user", 512, 10)
            self.realm = w.text(nm + "realm", 508, 9)
            self.u = w.obj(w.call_ok(L.ctor(None, "new", BY_SHORT["Username"].tid(L)), self.user))
            self.r = w.obj(w.call_ok(L.ctor(None, "new", BY_SHORT["Realm"].tid(L)), self.realm))

    def args(self):
        p = self.w.slice_of(self.pw)
        return (self.u, self.r, p) if self.long else (p,)

    def key(self):
        return long_key(self.w, self.user, self.realm, self.pw) if self.long else self.pw

    def name(self, what):
        return "%s_%s_term_credential" % (what, "long" if self.long else "short")


def contents(L, s):
    """Attribute lists to sign: none, one of every member, several."""
    M = Msgs(L, s)
    ms = [RAW_ATTR] if s == "attribute::RawAttribute" else [a for a in M.members() if a.kind not in ("mi", "fp")]
    out = [()] + [(a,) for a in ms]
    some = [a for a in ms if a.kind in ("text128", "bytes", "addr", "u64", "raw", "u16hi", "flags2")][:2]
    out.append(tuple(some * 2)[:2])
    return out


def name_of(c):
    return "+".join(a.short for a in c) if c else "empty"


@check("C14", ["Fingerprint::new on messages of no attribute, of every member of every set, and of several: CRC-32/ISO-HDLC of exactly the covered bytes XOR 0x5354554E",
               "decoding a message with a fingerprint of any value, alone, after, before and between other attributes: broken iff the value is another",
               "encoding writes the value that was computed"], floor=49)
def c14(L, tier):
    out = []
    for s in SET_NAMES + ["attribute::RawAttribute"]:
        for c in contents(L, s):
            def new(R, s=s, c=c):
                w = World(L)
                M = Msgs(L, s)
                k = "new %s %s" % (short_set(s), name_of(c))
                p = Parts(w, M)
                for i, a in enumerate(c):
                    p.add(a, "%s%d" % (a.short, i))
                v = w.call(signer(L, "new", FP.tid(L), M.msg), p.mp)
                og, fp, eg, e = L.res(v)
                total = add(seq_len(p.wire), k64(8))[0]
                fit = AND(w.care, AND(ult(total, k64(0x10000)), AND(1, ult(seq_len(p.wire), k64(0x10000)))))
                if "raw" in [a.kind for a in c]:
                    # Raw attributes have no bound of their own on the value.
                    for i, a in enumerate(c):
                        fit = AND(fit, ult(seq_len(w.bytes("%s%d" % (a.short, i), w.length("len(%s%d)" % (a.short, i), 17))), k64(0x10000)))
                R.require(w, k + ": made", AND(w.care, XOR(AND(w.pc, og), fit)), "a fingerprint that fits is not made, or one that does not fit is")
                w.st.pc = AND(w.pc, og)
                got = w.call(L.method(None, "crc32", FP.tid(L)), w.obj(fp))
                want = crc_of(w, covered(w, p.cb, p.mb, p.tb, p.wire, 8))
                R.require(w, k + ": value", differs(w, got, want, w.pc), "the fingerprint is not the CRC of the message before it, with the length that counts it")
                no_panic(R, w, k)
            out.append(("new %s %s" % (short_set(s), name_of(c)), new))

    for shape in ("f", "af", "fa", "afa", "uf", "xf", "Mf", "aMf", "ff", "ef"):
        def dec(R, shape=shape):
            w = World(L)
            M = Msgs(L, SIGNED)
            k = "decode " + shape
            W = Wire(w)
            val = w.paired("crc", 4, CRC32)
            conds = []
            for i, x in enumerate(shape):
                nm = "%s%d" % (x, i)
                if x == "f":
                    v = val if not conds else [w.bits(8, "%s[%d]" % (nm, j)) for j in range(4)]
                    conds.append((seq_cat(W.body, seq_of(()), w.pc), v))
                    W.attr(FP.code, seq_of(v))
                elif x == "a":
                    t = w.text(nm, 508, 9)
                    w.assume(ult(w.chars(t), k64(128)))
                    w.care = AND(w.care, w.axioms)
                    W.attr(BY_SHORT["Software"].code, t)
                elif x == "u":
                    W.attr(RAW, w.bytes(nm, w.length("len " + nm, 16)))
                elif x == "x":
                    a = BY_SHORT["XorMappedAddress"]
                    W.attr(a.code, Addr.fresh(w, nm).wire())
                elif x == "e":
                    a = BY_SHORT["ErrorCode"]
                    W.attr(a.code, a.wire(a.model(w, nm)))
                elif x == "M":
                    W.attr(MI.code, seq_of([w.bits(8, "%s[%d]" % (nm, j)) for j in range(20)]))
            # The body up to the fingerprint, with room for it.
            w.assume(ult(seq_len(W.body), k64(0x10000)))
            buf = W.bytes()
            acc, r, used, rej = decode(w, M, buf)
            R.require(w, k + ": decoding ends", XOR(acc, w.care), "a well-framed message is rejected as a whole")
            want = w.care
            for body, v in conds:
                want = AND(want, eq(of_be(v), crc_of(w, covered(w, W.cb, W.mb, W.tb, body, 8))))
            og, msg, eg, e = L.res(r)
            R.require(w, k + ": broken iff wrong", AND(w.pc, XOR(og, want)), "a message with a wrong fingerprint is accepted, or one with the right fingerprint is reported as broken")
            w.st.pc = AND(w.pc, og)
            if w.pc and len(conds) == 1:
                got, some = lookup(w, M, msg, FP)
                R.require(w, k + ": found", AND(w.pc, NOT(some)), "the fingerprint is not in the message")
                w.st.pc = AND(w.pc, some)
                crc = w.call(L.method(None, "crc32", FP.tid(L)), w.obj(got))
                R.require(w, k + ": value", differs(w, crc, of_be(val), w.pc), "another value than received")
            no_panic(R, w, k)
        out.append(("decode " + shape, dec))

    def enc(R):
        w = World(L)
        M = Msgs(L, SIGNED)
        k = "encode"
        p = Parts(w, M)
        a = BY_SHORT["Nonce"]
        p.add(a, "nonce")
        body = p.wire
        v = w.call_ok(signer(L, "new", FP.tid(L), M.msg), p.mp)
        M.add(w, p.mp, FP, v)
        ep, og, eg = M.encode_msg(w, p.mp)
        R.require(w, k + ": accepted", AND(w.pc, NOT(og)), "a message with a fingerprint is not encoded")
        w.st.pc = AND(w.pc, og)
        n, og, o, buf = M.drain(w, ep)
        w.st.pc = AND(w.pc, og)
        cov = covered(w, p.cb, p.mb, p.tb, body, 8)
        want = seq_cat(cov, seq_of(be(const(FP.code, 16)) + be(const(4, 16)) + be(crc_of(w, cov))), w.pc)
        R.require(w, k + ": bytes", differs(w, w.read(buf), want, w.pc), "the message is not followed by its fingerprint")
        no_panic(R, w, k)
    out.append(("encode", enc))
    return out


def body_of(w, W, shape, raws):
    """Attributes by letter: a text, u unknown, x XOR address, M message integrity, f fingerprint (any value). Returns what each M covers."""
    cov = []
    for i, x in enumerate(shape):
        nm = "%s%d" % (x, i)
        if x == "M":
            raw = raws[len(cov)]
            cov.append((covered(w, W.cb, W.mb, W.tb, W.body, 24), raw))
            W.attr(MI.code, seq_of(raw))
        elif x == "a":
            t = w.text(nm, 508, 9)
            w.assume(ult(w.chars(t), k64(128)))
            w.care = AND(w.care, w.axioms)
            W.attr(BY_SHORT["Realm"].code, t)
        elif x == "u":
            W.attr(RAW, w.bytes(nm, w.length("len " + nm, 16)))
        elif x == "x":
            W.attr(BY_SHORT["XorMappedAddress2"].code, Addr.fresh(w, nm).wire())
        elif x == "f":
            # A right fingerprint: others are of no interest here.
            body = W.body
            v = crc_of(w, covered(w, W.cb, W.mb, W.tb, body, 8))
            W.attr(FP.code, seq_of(be(v)))
    return cov


@check("C15", ["MessageIntegrity::new_* on messages of no attribute, of every member of every set, and of several: HMAC-SHA1 of exactly the covered bytes",
               "decoding messages with one and two message integrity attributes among others: code as received; a check covers the bytes before that attribute"],
       floor=74)
def c15(L, tier):
    out = []
    for s in SET_NAMES + ["attribute::RawAttribute"]:
        for c in contents(L, s):
            for long in (0, 1):
                if long and len(c) == 1 and s != SIGNED:
                    continue

                def new(R, s=s, c=c, long=long):
                    w = World(L)
                    M = Msgs(L, s)
                    k = "new %s %s %s" % ("long" if long else "short", short_set(s), name_of(c))
                    w.interleaved(20, HMAC, 3)
                    cr = Credentials(w, long)
                    p = Parts(w, M)
                    for i, a in enumerate(c):
                        m, v = p.add(a, "%s%d" % (a.short, i))
                        if a.kind == "raw":
                            w.assume(ult(seq_len(m["bytes"]), k64(0x10000)))
                    v = w.call(signer(L, cr.name("new"), MI.tid(L), M.msg), p.mp, *cr.args())
                    og, mi, eg, e = L.res(v)
                    fit = AND(w.care, ult(add(seq_len(p.wire), k64(24))[0], k64(0x10000)))
                    R.require(w, k + ": made", AND(w.care, XOR(AND(w.pc, og), fit)), "a message integrity that fits is not made, or one that does not fit is")
                    w.st.pc = AND(w.pc, og)
                    got = model_code(w, mi)
                    cov = covered(w, p.cb, p.mb, p.tb, p.wire, 24)
                    R.require(w, k + ": value", differs(w, got, hmac_of(w, cr.key(), cov), w.pc), "not the HMAC-SHA1 of the message before it, with the length that counts it")
                    # Checking what was made covers the same bytes. With another key of the short term only: two
                    # long-term keys are two digests of unrelated texts, and comparing them tells nothing more here.
                    cr2 = cr if long else Credentials(w, long, "other ")
                    ok = checked(w, mi, cr2)
                    R.require(w, k + ": what a check covers", AND(w.pc, XOR(ok, w.same(got, hmac_of(w, cr2.key(), cov)))), "a check of it covers other bytes")
                    no_panic(R, w, k)
                out.append(("new %s %s %s" % ("long" if long else "short", short_set(s), name_of(c)), new))
    for shape in ("M", "aM", "uM", "xM", "Ma", "MM", "aMuM", "uMf"):
        for long in (0, 1):
            if long:
                shape = shape.replace("aMuM", "MxM")

            def dec(R, shape=shape, long=long):
                w = World(L)
                M = Msgs(L, SIGNED)
                k = "decode %s %s" % (shape, "long" if long else "short")
                W = Wire(w)
                raws = [w.paired("code%d" % i, 20, HMAC, 1) for i in range(shape.count("M"))]
                cov = body_of(w, W, shape, raws)
                w.assume(ult(seq_len(W.body), k64(0x10000)))
                m, used = decoded(R, w, M, W.bytes(), k)
                ks = known_list(w, M, m)
                mis = []
                for q in ks:
                    r = w.call(try_as(L, M, MI), q)
                    some = AND(w.pc, r.g.get(1, 0))
                    if some:
                        mis.append((some, r.p[1][0]))
                R.require(w, k + ": all there", differs(w, k64(len(mis)), k64(len(cov)), w.pc), "a message integrity attribute is lost")
                cr = Credentials(w, long)
                for i, ((g, q), (bytes_, raw)) in enumerate(zip(mis, cov)):
                    v = w.read(q)
                    R.require(w, "%s: code of %d" % (k, i), differs(w, model_code(w, v), list(raw), w.pc), "another code than received")
                    ok = checked(w, v, cr)
                    R.require(w, "%s: check of %d" % (k, i), AND(w.pc, XOR(ok, w.same(raw, hmac_of(w, cr.key(), bytes_)))),
                              "a credential check is not the comparison with the HMAC of the bytes before the attribute")
                no_panic(R, w, k)
            out.append(("decode %s %d" % (shape, long), dec))
    return out


def model_code(w, v):
    i = w.L.method(None, "hmac_sha1", MI.tid(w.L))
    r = w.call(i, w.obj(v))
    r = w.read(r) if type(r) is Ptr else r
    return list(r.v)


def checked(w, v, cr, err=False):
    """The condition under which a credential check of this attribute succeeds."""
    i = w.L.method(None, cr.name("check"), MI.tid(w.L))
    r = w.call(i, w.obj(v), *cr.args())
    og, o, eg, e = w.L.res(r)
    return (og, e, eg) if err else og


@check("C16", ["check_short/long_term_credential on a received code of any value and every user, realm and password: succeeds iff all 20 bytes are the HMAC-SHA1 under the key",
               "otherwise the error is 401", "a check of what was made with the same credentials succeeds"], floor=4)
def c16(L, tier):
    out = []
    for long in (0, 1):
        def recv(R, long=long):
            w = World(L)
            M = Msgs(L, SIGNED)
            k = "received code, %s term" % ("long" if long else "short")
            W = Wire(w)
            raw = w.paired("code", 20, HMAC)
            cov = body_of(w, W, "uM", [raw])
            w.assume(ult(seq_len(W.body), k64(0x10000)))
            m, used = decoded(R, w, M, W.bytes(), k)
            got, some = lookup(w, M, m, MI)
            R.require(w, k + ": found", AND(w.pc, NOT(some)), "the attribute is not in the message")
            w.st.pc = AND(w.pc, some)
            cr = Credentials(w, long)
            ok, e, eg = checked(w, got, cr, True)
            want = w.same(raw, hmac_of(w, cr.key(), cov[0][0]))
            R.require(w, k + ": accepted iff right", AND(w.pc, XOR(ok, want)), "a wrong credential is accepted or the right one refused")
            pc = w.pc
            w.st.pc = AND(pc, eg)
            a = BY_SHORT["ErrorCode"]
            R.require(w, k + ": error", differs(w, a.observe(w, e)["code"], const(401, 16), w.pc), "the error is not 401")
            no_panic(R, w, k)

        def own(R, long=long):
            w = World(L)
            M = Msgs(L, SIGNED)
            k = "own code, %s term" % ("long" if long else "short")
            p = Parts(w, M)
            p.add(BY_SHORT["Nonce"], "nonce")
            cr = Credentials(w, long)
            v = w.call_ok(signer(L, cr.name("new"), MI.tid(L), M.msg), p.mp, *cr.args())
            R.require(w, k + ": accepted", AND(w.pc, NOT(checked(w, v, cr))), "a check with the credentials it was made with fails")
            no_panic(R, w, k)
        out += [("received %d" % long, recv), ("own %d" % long, own)]
    return out
