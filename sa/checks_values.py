"""Properties of single values: XOR, hooks of attributes, constructors, classifications, conversions, names."""
from checks import *

# ------------------------------------------------------------------ C11: XOR


def xor_func(L):
    """pub fn socket_addr_xor(SocketAddr, TransactionId) -> SocketAddr"""
    for i in L.P.insts:
        if i.body and i.local and i.dfn.split("::")[-1] == "socket_addr_xor":
            return i
    raise Anchor("function socket_addr_xor")


@check("C11", ["socket_addr_xor on every address of either family and every transaction id: port, address and family are those of RFC 5389 15.2",
               "applied twice: the original address"], floor=4)
def c11(L, tier):
    def addr(w, fam, nm):
        return Addr(0 if fam == "v4" else 1 if fam == "v6" else w.flag(nm + ".v6"), be(w.bits(32, nm + ".ip4")), be(w.bits(128, nm + ".ip6")), w.bits(16, nm + ".port"))

    def once(R, fam, twice):
        w = World(L)
        k = "%s %s" % (fam, "twice" if twice else "once")
        a = addr(w, fam, "addr")
        M = Msgs(L, "rfc5389::Attribute")
        t, tb = M.tid(w)
        f = xor_func(L)
        v = w.call(f, a.rust(w), t)
        if twice:
            v = w.call(f, v, t)
            R.require(w, k + ": the same address", differs(w, Addr.observe(w, v), a, w.pc), "applying the XOR twice does not give back the address")
        else:
            o, x = Addr.observe(w, v), a.xor(tb)
            R.require(w, k + ": family", AND(w.pc, XOR(o.v6, a.v6)), "the address family changes")
            R.require(w, k + ": port", differs(w, o.port, x.port, w.pc), "the port is not XORed with the upper half of the cookie")
            R.require(w, k + ": address", differs(w, o, x, w.pc), "the address is not XORed with cookie and transaction id")
        no_panic(R, w, k)
    out = []
    for fam in ("v4", "v6", "either"):
        for twice in (0, 1):
            out.append(("%s %d" % (fam, twice), lambda R, fam=fam, twice=twice: once(R, fam, twice)))
    return out


# ------------------------------------------------------------------ C12: who is XORed


def model_of(w, a, v):
    """What can be observed of an attribute of any kind."""
    if a.kind == "mi":
        i = w.L.method(None, "hmac_sha1", a.tid(w.L))
        r = w.call(i, w.obj(v))
        return {"v": w.read(r) if type(r) is Ptr else r}
    if a.kind == "fp":
        return {"v": w.call(w.L.method(None, "crc32", a.tid(w.L)), w.obj(v))}
    return a.observe(w, v)


@check("C12", ["the hooks of every attribute type on every value: XOR with the transaction id of the message for the four XOR types, unchanged for all others",
               "two attributes of one type, or an XOR type behind any other one, in a message, encoded and decoded: bytes and values with the XOR applied once each way for exactly those types"],
       floor=90)
def c12(L, tier):
    out = []
    for s in SET_NAMES:
        for a in ATTRS:
            try:
                hook_of(L, "before_encode", a.tid(L), Msgs(L, s).msg)
            except Anchor:
                continue        # not used with this set: the instance does not exist
            for hk in ("before_encode", "after_decode"):
                def hook(R, s=s, a=a, hk=hk):
                    w = World(L)
                    M = Msgs(L, s)
                    k = "%s of %s in %s" % (hk, a.short, short_set(s))
                    p = Parts(w, M)
                    if a.kind in ("mi", "fp"):
                        raw = [w.bits(8, "%s[%d]" % (a.short, i)) for i in range(20 if a.kind == "mi" else 4)]
                        v = sample_signature(w, a, raw)
                        old = model_of(w, a, v)
                        want = old
                    else:
                        m = a.model(w, a.short)
                        v = a.make(w, m)
                        want = {"addr": m["addr"].xor(p.tb)} if a.xor else a.expect(w, m)
                    vp = w.obj(v)
                    r = w.call(hook_of(L, hk, a.tid(L), M.msg), vp, p.mp)
                    og, _, eg, e = L.res(r)
                    if a.kind != "fp" or hk == "before_encode":
                        R.require(w, k + ": succeeds", AND(w.pc, NOT(og)), "the hook of a well-formed attribute fails")
                    w.st.pc = AND(w.pc, og)
                    R.require(w, k + ": value", differs(w, model_of(w, a, w.read(vp)), want, w.pc),
                              "the address is not XORed exactly once" if a.xor else "an attribute that is not an XOR attribute is changed")
                    no_panic(R, w, k)
                out.append(("%s %s %s" % (hk, short_set(s), a.short), hook))
        for a in plain_members(L, s):
            if a.kind == "empty":
                continue

            out.append(("encode %s %s" % (short_set(s), a.short), lambda R, s=s, a=a: two_encoded(R, L, s, [a, a])))
            if a.kind != "list":
                out.append(("decode %s %s" % (short_set(s), a.short), lambda R, s=s, a=a: two_decoded(R, L, s, [a, a])))
        # What comes before an attribute makes no difference.
        for a in plain_members(L, s):
            for b in plain_members(L, s):
                if a is b or tier == "quick" and not a.xor:
                    continue
                nm = "%s %s after %s" % (short_set(s), a.short, b.short)
                if b.kind != "list":
                    out.append(("decode " + nm, lambda R, s=s, a=a, b=b: two_decoded(R, L, s, [b, a])))
                out.append(("encode " + nm, lambda R, s=s, a=a, b=b: two_encoded(R, L, s, [b, a])))
    return out


def two_encoded(R, L, s, attrs):
    w = World(L)
    M = Msgs(L, s)
    k = "encode %s %s" % (short_set(s), " and ".join(a.short for a in attrs))
    p = Parts(w, M)
    for i, a in enumerate(attrs):
        p.add(a, "%s%d" % (a.short, i + 1))
    ep, og, eg = M.encode_msg(w, p.mp)
    w.st.pc = AND(w.pc, og)
    n, og, o, buf = M.drain(w, ep)
    w.st.pc = AND(w.pc, og)
    R.require(w, k + ": bytes", differs(w, w.read(buf), p.bytes(), w.pc), "an attribute is not obfuscated as its type demands")
    no_panic(R, w, k)


def two_decoded(R, L, s, attrs):
    w = World(L)
    M = Msgs(L, s)
    k = "decode %s %s" % (short_set(s), " and ".join(a.short for a in attrs))
    W = Wire(w)
    ms = []
    for i, a in enumerate(attrs):
        m = a.model(w, "%s%d" % (a.short, i + 1))
        ms.append(m)
        if a.kind == "text128":
            w.assume(ult(w.chars(m["text"]), k64(128)))
            w.care = AND(w.care, w.axioms)
        W.attr(a.code, m["addr"].xor(W.tb).wire() if a.xor else a.wire(m))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    m, used = decoded(R, w, M, W.bytes(), k)
    ks = known_list(w, M, m, 2)
    R.require(w, k + ": two", differs(w, k64(len(ks)), k64(2), w.pc), "not both attributes are in the message")
    for i, (a, x, q) in enumerate(zip(attrs, ms, ks)):
        r = w.call(try_as(L, M, a), q)
        some = r.g.get(1, 0)
        R.require(w, "%s: type of %d" % (k, i + 1), AND(w.pc, NOT(some)), "an attribute is decoded as another type")
        w.st.pc = AND(w.pc, some)
        R.require(w, "%s: value of %d" % (k, i + 1), differs(w, a.observe(w, w.read(r.p[1][0])), a.expect(w, x), w.pc),
                  "an attribute is not read back as its type demands")
    no_panic(R, w, k)


# ------------------------------------------------------------------ C13: constructors


def judged(R, w, k, v, ok_want, is_result=True):
    """The result of a constructor is Ok exactly under ok_want; goes on under it. Returns the value."""
    if type(v) is Enum and is_result:
        og, o, eg, e = w.L.res(v)
    else:
        og, o = 1, v
    R.require(w, k + ": accepted iff in range", AND(w.care, XOR(AND(w.pc, og), ok_want)) if w.pc == w.care else AND(w.care, XOR(AND(w.pc, og), AND(w.care, ok_want))),
              "a value out of range is accepted or one in range is refused")
    w.st.pc = AND(w.pc, og)
    return o


def duration(w, secs, nanos):
    L = w.L
    dt = L.ty("std::time::Duration")
    return build(w, dt, secs=lambda f: secs, nanos=lambda f: newtype(w, f, nanos))


@check("C13", ["every constructor on every argument: accepted exactly when in the documented range",
               "the accessors of what was built show what it was built from"], floor=35)
def c13(L, tier):
    out = []

    def task(f):
        out.append((f.__name__.replace("_", " "), f))
        return f

    def get(w, tid, name, v):
        i = L.method(None, name, tid)
        return w.call(i, w.obj(v) if L.T[i.body["locals"][1]].k == "ref" else v)

    @task
    def method(R):
        w = World(L)
        c = w.bits(16, "code")
        M = Msgs(L, SET_NAMES[0])
        v = w.call(L.ctor(None, "new", L.ty("method::Method")), c)
        o = judged(R, w, "Method::new", v, ult(c, const(0x1000, 16)))
        R.require(w, "Method::new: code", differs(w, get(w, L.ty("method::Method"), "as_u16", o), c, w.pc), "the method has another number")
        w2 = World(L)
        b = w2.bits(8, "byte")
        f = [i for i in L.P.methods.get("from", ()) if i.local and i.body and i.body["locals"][0] == L.ty("method::Method") and L.T[i.body["locals"][1]].name == "u8"]
        if not f:
            R.bad("Method::from", "there is no conversion from u8")
            return
        v = w2.call(f[0], b)
        R.require(w2, "Method::from: code", differs(w2, get(w2, L.ty("method::Method"), "as_u16", v), zext(b, 16), w2.pc), "the method has another number")
        no_panic(R, w, "Method::new")
        no_panic(R, w2, "Method::from")

    @task
    def error_code(R):
        w = World(L)
        a = BY_SHORT["ErrorCode"]
        c = w.bits(16, "code")
        t = w.text("reason", 2000, 11)
        v = w.call(L.ctor(None, "new", a.tid(L)), c, t)
        o = judged(R, w, "ErrorCode::new", v, AND(NOT(ult(c, const(300, 16))), ult(c, const(600, 16))))
        R.require(w, "ErrorCode::new: content", differs(w, a.observe(w, o), {"code": c, "text": t}, w.pc), "the accessors show another code or phrase")
        no_panic(R, w, "ErrorCode::new")

    @task
    def channel_number(R):
        a = BY_SHORT["ChannelNumber"]
        tid = a.tid(L)
        w = World(L)
        c = w.bits(16, "number")
        inr = AND(NOT(ult(c, const(0x4000, 16))), NOT(ult(const(0x4FFF, 16), c)))
        o = judged(R, w, "ChannelNumber::new", w.call(L.ctor(None, "new", tid), c), inr)
        R.require(w, "ChannelNumber::new: value", differs(w, a.observe(w, o), {"v": c}, w.pc), "another value")
        n = get(w, tid, "wrapping_increment", o)
        want = ite_bv(eqc(c, 0x4FFF), const(0x4000, 16), add(c, const(1, 16))[0])
        R.require(w, "ChannelNumber::wrapping_increment", differs(w, a.observe(w, n), {"v": want}, w.pc), "the number after a channel number is wrong or out of range")
        R.require(w, "ChannelNumber::min", differs(w, a.observe(w, w.call(L.ctor(None, "min", tid))), {"v": const(0x4000, 16)}, w.pc), "not 0x4000")
        R.require(w, "ChannelNumber::max", differs(w, a.observe(w, w.call(L.ctor(None, "max", tid))), {"v": const(0x4FFF, 16)}, w.pc), "not 0x4FFF")
        for nm, x in (("MIN", 0x4000), ("MAX", 0x4FFF)):
            key = L.impl_of(a.name)["name"] + "::" + nm
            (R.good if L.consts.get(key) == x else lambda q: R.bad(q, "is %s" % L.consts.get(key)))("ChannelNumber::" + nm)
        no_panic(R, w, "ChannelNumber")

    for nm, kind in (("Username", "text513"), ("Realm", "text128"), ("Nonce", "text128"), ("Software", "text128")):
        def text(R, nm=nm, kind=kind):
            a = BY_SHORT[nm]
            w = World(L)
            t = w.text("text", 4000, 12)
            lim = ult(seq_len(t), k64(513)) if kind == "text513" else ult(w.chars(t), k64(128))
            w.care = AND(w.care, w.axioms)
            o = judged(R, w, nm + "::new", w.call(L.ctor(None, "new", a.tid(L)), t), lim)
            R.require(w, nm + "::new: text", differs(w, a.observe(w, o), {"text": t}, w.pc), "the accessor shows another text")
            no_panic(R, w, nm + "::new")
        out.append((nm, text))

    @task
    def software_new_static(R):
        a = BY_SHORT["Software"]
        for key, short in (("up to 127 bytes", 1), ("128 bytes or more", 0)):
            w = World(L)
            t = w.text("text", 600, 10)
            w.assume(ult(seq_len(t), k64(128)) if short else NOT(ult(seq_len(t), k64(128))))
            c = w.chars(t)
            fits = ult(c, k64(128))
            w.care = AND(w.care, w.axioms)
            k = "Software::new_static with " + key
            try:
                v = w.call(L.ctor(None, "new_static", a.tid(L)), w.slice_of(t))
                R.require(w, k + ": refused when too long", AND(w.pc, NOT(fits)), "a description of 128 characters or more is accepted")
                R.require(w, k + ": accepted up to 127 characters", AND(AND(w.care, fits), NOT(w.pc)), "a description of at most 127 characters is refused")
                R.require(w, k + ": text", differs(w, a.observe(w, v), {"text": t}, w.pc), "the accessor shows another text")
            except Diverges:
                # Every description of this size is refused.
                R.good(k + ": refused when too long")
                R.require(w, k + ": accepted up to 127 characters", AND(w.care, fits), "a description of at most 127 characters is refused")

    @task
    def lifetime(R):
        a = BY_SHORT["Lifetime"]
        w = World(L)
        s, n = w.bits(64, "seconds"), w.bits(30, "nanoseconds")
        w.assume(ult(n, const(1000000000, 30)))
        v = w.call(L.ctor(None, "new", a.tid(L)), duration(w, s, zext(n, 32)))
        o = judged(R, w, "Lifetime::new", v, eqc(BV(s.b[32:]), 0))
        R.require(w, "Lifetime::new: whole seconds", differs(w, a.observe(w, o), {"v": trunc(s, 32), "hi": const(0, 32), "nanos": const(0, 32)}, w.pc), "the lifetime is not the whole seconds it was made from")
        no_panic(R, w, "Lifetime::new")
        w = World(L)
        x = w.bits(32, "seconds")
        o = w.call(L.ctor(None, "from_u32", a.tid(L)), x)
        R.require(w, "Lifetime::from_u32", differs(w, a.observe(w, o), {"v": x, "hi": const(0, 32), "nanos": const(0, 32)}, w.pc), "another lifetime")
        no_panic(R, w, "Lifetime::from_u32")

    for nm in ("Data", "MobilityTicket"):
        def data(R, nm=nm):
            a = BY_SHORT[nm]
            w = World(L)
            n = w.length("length", 40)
            v = w.call(L.ctor(None, "new", a.tid(L)), w.bytes("data", n))
            o = judged(R, w, nm + "::new", v, ult(n, k64(0x10000)))
            R.require(w, nm + "::new: bytes", differs(w, a.observe(w, o), {"bytes": w.bytes("data", n)}, w.pc), "the accessor shows other bytes")
            no_panic(R, w, nm + "::new")
        out.append((nm, data))

    @task
    def mobility_ticket_empty(R):
        a = BY_SHORT["MobilityTicket"]
        w = World(L)
        v = w.call(L.ctor(None, "empty", a.tid(L)))
        R.require(w, "MobilityTicket::empty", differs(w, a.observe(w, v), {"bytes": seq_of(())}, w.pc), "not empty")
        no_panic(R, w, "MobilityTicket::empty")

    for a in PLAIN:
        if a.kind in ("text128", "text513", "bytes", "error", "channel", "secs"):
            continue

        def simple(R, a=a):
            w = World(L)
            m = a.model(w, a.short)
            v = a.make(w, m)
            R.require(w, a.short + "::new: returns", AND(w.care, NOT(w.pc)), "refuses a value in range")
            R.require(w, a.short + "::new: content", differs(w, a.observe(w, v), a.expect(w, m), w.pc), "the accessors show something else")
            no_panic(R, w, a.short + "::new")
        out.append((a.short, simple))

    @task
    def raw_attribute(R):
        w = World(L)
        m = RAW_ATTR.model(w, "raw")
        v = RAW_ATTR.make(w, m)
        R.require(w, "RawAttribute::new: content", differs(w, RAW_ATTR.observe(w, v), m, w.pc), "another type or value")
        i = L.method(None, "into_value", RAW_ATTR.tid(L))
        R.require(w, "RawAttribute::into_value", differs(w, w.call(i, v), m["bytes"], w.pc), "another value")
        no_panic(R, w, "RawAttribute")

    @task
    def transaction_id(R):
        w = World(L)
        M = Msgs(L, SET_NAMES[0])
        t, tb = M.tid(w)
        tt = L.ty("transaction_id::TransactionId")
        for nm in ("as_bytes",):
            r = w.call(L.method(None, nm, tt), w.obj(t))
            R.require(w, "TransactionId::as_bytes", differs(w, list(w.read(r).v), tb, w.pc), "other bytes")
        i = L.method("AsRef", "as_ref", tt, opt=True)
        if i is not None:
            r = w.call(i, w.obj(t))
            R.require(w, "TransactionId::as_ref", differs(w, w.slice(r), seq_of(tb), w.pc), "other bytes")
        no_panic(R, w, "TransactionId")
    return out


# ------------------------------------------------------------------ C27: comprehension


@check("C27", ["AttributeType on all 65536 codes: required iff below 0x8000, optional otherwise, code kept by every constructor"], floor=1)
def c27(L, tier):
    def one(R):
        at = L.ty("attribute::AttributeType")
        for how in ("new", "from"):
            w = World(L)
            c = w.bits(16, "code")
            f = L.ctor(None, "new", at) if how == "new" else [i for i in L.P.methods.get("from", ()) if i.local and i.body and i.body["locals"][0] == at and L.T[i.body["locals"][1]].name == "u16"][0]
            v = w.call(f, c)
            k = "AttributeType::" + how
            R.require(w, k + ": code", differs(w, w.call(L.method(None, "as_u16", at), v), c, w.pc), "another code")
            req = w.call(L.method(None, "is_comprehension_required", at), v)
            opt = w.call(L.method(None, "is_comprehension_optional", at), v)
            lo = ult(c, const(0x8000, 16))
            R.require(w, k + ": required", AND(w.pc, XOR(req.b[0], lo)), "a code is classified as comprehension-required although it is not, or not although it is")
            R.require(w, k + ": optional", AND(w.pc, XOR(opt.b[0], NOT(lo))), "a code is classified as comprehension-optional although it is not, or not although it is")
            no_panic(R, w, k)
    return [("types", one)]


# ------------------------------------------------------------------ C28: errors

ERRORS = [
    ("rfc5389::errors::TryAlternate", 300, "Try Alternate"),
    ("rfc5389::errors::BadRequest", 400, "Bad Request"),
    ("rfc5389::errors::Unauthorized", 401, "Unauthorized"),
    ("rfc5389::errors::UnknownAttribute", 420, "Unknown Attribute"),
    ("rfc5389::errors::StaleNonce", 438, "Stale Nonce"),
    ("rfc5389::errors::ServerError", 500, "Server Error"),
    ("rfc5766::errors::Forbidden", 403, "Forbidden"),
    ("rfc5766::errors::AllocationMismatch", 437, "Allocation Mismatch"),
    ("rfc5766::errors::WrongCredentials", 441, "Wrong Credentials"),
    ("rfc5766::errors::UnsupportedTransportProtocol", 442, "Unsupported Transport Protocol"),
    ("rfc5766::errors::AllocationQuotaReached", 486, "Allocation Quota Reached"),
    ("rfc5766::errors::InsufficientCapacity", 508, "Insufficient Capacity"),
    ("rfc5245::errors::RoleConflict", 487, "Role Conflict"),
    ("rfc8016::errors::MobilityForbidden", 405, "Mobility Forbidden"),
    ("rfc8656::errors::AddressFamilyNotSupported", 440, "Address Family not Supported"),
    ("rfc8656::errors::PeerAddressFamilyMismatch", 443, "Peer Address Family Mismatch"),
]


def into_error_code(L, tid):
    ec = BY_SHORT["ErrorCode"].tid(L)
    for i in L.P.methods.get("from", ()):
        if i.local and i.body and i.body["args"] == 1 and i.body["locals"][0] == ec and i.body["locals"][1] == tid:
            return i
    raise Anchor("conversion of %s into an error code" % L.T[tid].name)


def lit(text):
    return seq_of([const(b, 8) for b in text.encode()])


@check("C28", ["every predefined error: its constant, and code and phrase of the attribute it converts into",
               "a decode error of every kind: 400 for InvalidInput, 500 for all others"], floor=17)
def c28(L, tier):
    out = []
    a = BY_SHORT["ErrorCode"]
    for name, code, text in ERRORS:
        def one(R, name=name, code=code, text=text):
            k = name.split("::")[-1]
            w = World(L)
            t = L.ty(name)
            v = w.call(into_error_code(L, t), Agg(()))
            R.require(w, k + ": returns", AND(w.care, NOT(w.pc)), "the conversion never returns")
            R.require(w, k + ": attribute", differs(w, a.observe(w, v), {"code": const(code, 16), "text": lit(text)}, w.pc), "not %d %s" % (code, text))
            c = L.consts.get(name + "::CODEPOINT", L.consts.get(L.T[t].j["def"] + "::CODEPOINT"))
            (R.good(k + ": constant") if c == code else R.bad(k + ": constant", "is %s" % c))
            no_panic(R, w, k)
        out.append((name, one))

    def decode_error(R):
        w = World(L)
        et = [i.body["locals"][1] for i in L.P.methods.get("from", ()) if i.local and i.body and i.body["locals"][0] == a.tid(L)
              and L.T[i.body["locals"][1]].name == "bytecodec::Error"]
        if not et:
            R.bad("decode error", "there is no conversion from bytecodec::Error")
            return
        v = w.ip.sym(et[0], "error")
        kt = [t for t in L.T if t.k == "adt" and t.name == "bytecodec::ErrorKind"][0]
        r = w.call(into_error_code(L, et[0]), v)
        kind = kind_of(w, et[0], v)
        inv = kind.g.get([x["name"] for x in kt.j["variants"]].index("InvalidInput"), 0)
        o = a.observe(w, r)
        R.require(w, "decode error: code", differs(w, o["code"], ite_bv(inv, const(400, 16), const(500, 16)), w.pc), "not 400 for invalid input and 500 for everything else")
        for want, text, g in ((400, "Bad Request", inv), (500, "Server Error", NOT(inv))):
            p = AND(w.pc, g)
            R.require(w, "decode error: phrase of %d" % want, differs(w, o["text"], lit(text), p), "another phrase")
        no_panic(R, w, "decode error")
    out.append(("decode error", decode_error))
    return out


def kind_of(w, tid, v):
    """The ErrorKind inside a bytecodec::Error value."""
    t = w.L.T[tid]
    while not (t.k == "adt" and t.j["def"].endswith("TrackableError")):
        f = t.j["variants"][0]["fields"]
        v, t = v.v[0], w.L.T[f[0][1]]
    k, _ = field_of(w, t.id, v, "kind")
    return k


# ------------------------------------------------------------------ C29: methods and names

METHODS = [("rfc5389::methods::BINDING", 1, "binding"), ("rfc5766::methods::ALLOCATE", 3, "allocate"), ("rfc5766::methods::REFRESH", 4, "refresh"),
           ("rfc5766::methods::SEND", 6, "send"), ("rfc5766::methods::DATA", 7, "data"), ("rfc5766::methods::CREATE_PERMISSION", 8, "create permission"),
           ("rfc5766::methods::CHANNEL_BIND", 9, "channel bind")]
CLASS_TEXT = {"Request": "request", "Indication": "indication", "SuccessResponse": "success response", "ErrorResponse": "error response"}


def displayed(w, tid, v):
    i = w.L.method("Display", "fmt", tid)
    f = w.obj(seq_of(()))
    w.call(i, w.obj(v), f)
    return w.read(f)


def shows_number(w, got, number, before, after):
    """Is the text these words around the (decimal) text of this number? The latter is opaque."""
    al = [(g, s) for g, s in got.alts if AND(g, w.pc)]
    if len(al) != 1:
        return False, "%d forms" % len(al)
    segs = al[0][1]
    txt = "".join("".join(chr(b.c) for b in x[1]) if x[0] == "L" else "{%s}" % x[1].name for x in segs)
    uses = [x for x in segs if x[0] == "S"]
    if not (txt.startswith(before) and txt.endswith(after) and len(uses) == 1 and len(segs) == 1 + bool(before) + bool(after)):
        return False, txt[:120]
    key = [q for q, v in w.ip.opaque.items() if v is uses[0][1]]
    if not key or key[0][1][1] != "display" or key[0][1][2] != (0xC0, ()):
        return False, "in another notation"
    arg = [y for q in key for y in q[1] if type(y) is BV]
    ok = len(arg) == 1 and differs(w, zext(arg[0], 16), number, w.pc) == 0
    return ok, "the number shown is another one"


@check("C29", ["every method constant has its registered number", "Display of every method number and class: its own name; unknown ones show their number"], floor=9)
def c29(L, tier):
    out = []
    for name, code, text in METHODS:
        def one(R, name=name, code=code, text=text):
            k = name.split("::")[-1]
            c = L.consts.get(name)
            (R.good(k + ": number") if c == code else R.bad(k + ": number", "is %s, not %d" % (c, code)))
            w = World(L)
            M = Msgs(L, SET_NAMES[0])
            m, _ = M.method(w, const(code, 12))
            R.require(w, k + ": name", differs(w, displayed(w, L.ty("method::Method"), m), lit(text), w.pc), "is not displayed as %r" % text)
            no_panic(R, w, k)
        out.append((name, one))

    def other(R):
        w = World(L)
        M = Msgs(L, SET_NAMES[0])
        m, mb = M.method(w)
        for _, code, _ in METHODS:
            w.assume(NOT(eqc(mb, code)))
        tid = L.ty("method::Method")
        got = displayed(w, tid, m)
        # The text of the number itself is opaque; what matters is that it is the number's, inside fixed words.
        ok, why = shows_number(w, got, zext(mb, 16), "unknown (", ")")
        (R.good("unknown methods: name") if ok else R.bad("unknown methods: name", "an unknown method is not displayed as 'unknown (<number>)': " + why))
        no_panic(R, w, "unknown methods")
    out.append(("unknown methods", other))

    def classes(R):
        ct = L.ty("message::MessageClass")
        for i, x in enumerate(L.T[ct].j["variants"]):
            w = World(L)
            v = Enum({i: 1}, {i: ()})
            R.require(w, x["name"] + ": name", differs(w, displayed(w, ct, v), lit(CLASS_TEXT[x["name"]]), w.pc), "is not displayed as %r" % CLASS_TEXT[x["name"]])
            no_panic(R, w, x["name"])
    out.append(("classes", classes))

    def families(R):
        w = World(L)
        t = L.ty("rfc8656::attributes::AddressFamily")
        v6 = w.flag("v6")
        got = displayed(w, t, family(w, v6))
        st = w.st
        for c, text in ((NOT(v6), "IPv4"), (v6, "IPv6")):
            R.require(w, text + ": name", differs(w, got, lit(text), AND(w.pc, c)), "is not displayed as %r" % text)
        no_panic(R, w, "address families")
    out.append(("address families", families))

    def channels(R):
        w = World(L)
        a = BY_SHORT["ChannelNumber"]
        m = a.model(w, "channel")
        got = displayed(w, a.tid(L), a.make(w, m))
        ok, why = shows_number(w, got, m["v"], "", "")
        (R.good("channel numbers: text") if ok else R.bad("channel numbers: text", "a channel number is not displayed as its number: " + why))
        no_panic(R, w, "channel numbers")
    out.append(("channel numbers", channels))
    return out
