"""Whole messages: how they are made, encoded and decoded through the public interface, and what the
RFC says their bytes are."""
from report import *

MEMBERS = {
    "rfc5389::Attribute": ["MappedAddress", "Username", "MessageIntegrity", "ErrorCode", "UnknownAttributes", "Realm", "Nonce",
                           "XorMappedAddress", "XorMappedAddress2", "Software", "AlternateServer", "Fingerprint"],
    "rfc5766::Attribute": ["ChannelNumber", "Lifetime", "XorPeerAddress", "Data", "XorRelayAddress", "EvenPort",
                           "RequestedTransport", "DontFragment", "ReservationToken"],
    "rfc5245::Attribute": ["Priority", "UseCandidate", "IceControlled", "IceControlling"],
    "rfc5780::Attribute": ["ChangeRequest", "ResponseOrigin", "ResponsePort", "OtherAddress"],
}
PREDEFINED = list(MEMBERS)
MEMBERS["verif::Attribute"] = [a.short for a in ATTRS]


class Msgs:
    """The message types of one attribute set."""

    def __init__(self, L, name):
        self.L = L
        self.name = name
        self.set = L.impl_of(name)["self"]
        self.msg = self.adt("Message")
        self.enc = self.adt("MessageEncoder")
        self.dec = self.adt("MessageDecoder")

    def adt(self, last):
        for t in self.L.T:
            if t.k == "adt" and t.j["def"].split("::")[-1] == last and t.j["args"][:1] == [self.set] and t.j.get("krate") == "stun_codec":
                return t.id
        raise Anchor("type %s<%s>" % (last, self.name))

    def members(self):
        return [BY_SHORT[s] for s in MEMBERS[self.name]]

    # -- parts of a message

    def cls(self, w, bits=None):
        """A message class from two bits: 0 request, 1 indication, 2 success, 3 error."""
        t = self.L.T[self.L.ty("message::MessageClass")]
        if bits is None:
            bits = w.bits(2, "class")
        return Enum({i: eqc(bits, CLASSES[v["name"]]) for i, v in enumerate(t.j["variants"])}, {i: () for i in range(len(t.j["variants"]))}), bits

    def method(self, w, bits=None):
        if bits is None:
            bits = w.bits(12, "method")
        mt = self.L.ty("method::Method")
        c = self.L.P.methods.get("new", ())
        for i in c:
            if i.local and i.body and i.j.get("trait") is None and i.dfn.endswith("::Method::new"):
                v = w.call(i, zext(bits, 16))
                t = self.L.T[i.body["locals"][0]]
                if t.id == mt:
                    return v, bits
                # Result<Method>, or an option
                good = 0 if t.j["def"].endswith("Result") else 1
                if not implies(w.pc, v.g.get(good, 0)):
                    raise Diverges("Method::new rejects a 12-bit method")
                return v.p[good][0], bits
        raise Anchor("Method::new")

    def tid(self, w, name="tid"):
        bs = [w.bits(8, "%s[%d]" % (name, i)) for i in range(12)]
        c = self.L.ctor(None, "new", self.L.ty("transaction_id::TransactionId"))
        return w.call(c, Agg(bs)), bs

    def new(self, w, c, m, t):
        return w.call(self.L.ctor(None, "new", self.msg), c, m, t)

    def add(self, w, mp, a, v):
        """message.add_attribute(attribute)"""
        for i in self.L.P.methods.get("add_attribute", ()):
            if i.local and i.body and self.L.self_ty(i) == self.msg and i.body["locals"][2] == a.tid(self.L):
                w.call(i, mp, v)
                return
        raise Anchor("add_attribute for " + a.name)

    # -- encoding

    def encoder(self, w):
        return w.obj(w.call(self.L.ctor("Default", "default", self.enc)))

    def start(self, w, ep, m):
        return w.call(self.L.method("Encode", "start_encoding", self.enc), ep, m)

    def size(self, w, ep):
        return w.call(self.L.method("SizedEncode", "exact_requiring_bytes", self.enc), ep)

    def encode(self, w, ep, bp, eos=True):
        return w.call(self.L.method("Encode", "encode", self.enc), ep, bp, w.ip.eos(eos))

    def encode_msg(self, w, mp):
        """Encode the whole message: (encoder, size, output object)."""
        ep = self.encoder(w)
        v = self.start(w, ep, w.read(mp) if type(mp) is Ptr else mp)
        og, o, eg, e = self.L.res(v)
        return ep, og, eg

    def drain(self, w, ep, name="out"):
        """Write everything to a buffer of exactly the announced size. Returns (bytes written, content)."""
        n = self.size(w, ep)
        buf = w.obj(w.bytes(name, n))
        bp = Ptr(tuple((g, o, p, (k64(0), n)) for g, o, p, _ in buf.alts))
        v = self.encode(w, ep, bp)
        og, o, eg, e = self.L.res(v)
        return n, og, o, buf

    # -- decoding

    def decoder(self, w):
        return w.obj(w.call(self.L.ctor("Default", "default", self.dec)))

    def decode(self, w, dp, seq, eos=True):
        return w.call(self.L.method("Decode", "decode", self.dec), dp, w.slice_of(seq), w.ip.eos(eos))

    def finish(self, w, dp):
        return w.call(self.L.method("Decode", "finish_decoding", self.dec), dp)

    def get(self, w, v, name, tid=None):
        """message.class() and the like."""
        i = self.L.method(None, name, tid if tid is not None else self.msg)
        by_ref = self.L.T[i.body["locals"][1]].k == "ref"
        return w.call(i, w.obj(v) if by_ref else v)


CLASSES = {"Request": 0, "Indication": 1, "SuccessResponse": 2, "ErrorResponse": 3}


def type_word(cls, method):
    """RFC 5389 figure 3: M11..M7 C1 M6..M4 C0 M3..M0."""
    m, c = method.b, cls.b
    return BV(tuple(m[0:4]) + (c[0],) + tuple(m[4:7]) + (c[1],) + tuple(m[7:12]) + (0, 0))


def header(cls, method, length, tid):
    return be(type_word(cls, method)) + be(trunc(length, 16)) + [const(x, 8) for x in COOKIE.to_bytes(4, "big")] + list(tid)


def pad_len(n):
    """(4 - n % 4) % 4"""
    return zext(trunc(sub(const(0, 2), trunc(n, 2))[0], 2), 64)


def padded(w, seq, pad=None):
    n = seq_len(seq)
    if pad is None:
        pad = Seq(((1, (("R", const(0, 8), pad_len(n)),)),))
    return seq_cat(seq, pad, w.pc)


def attr_wire(w, code, value):
    n = seq_len(value)
    return seq_cat(seq_of(be(code) + be(trunc(n, 16))), padded(w, value), w.pc)
