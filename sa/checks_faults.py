"""Errors of nested operations, made to happen wherever they can."""
from checks_bytes import *
from checks_sign import Credentials, checked, signer, SIGNED

ERROR = "Error"


def short_model(w, a, nm):
    """A value of the attribute; where it is text or data, of at most 15 bytes: what is in it does not matter here."""
    if a.kind == "bytes":
        return {"bytes": w.bytes(nm, w.length("len(%s)" % nm, 4))}
    if a.kind.startswith("text"):
        return {"text": w.text(nm, 15, 4)}
    if a.kind == "error":
        c = w.bits(16, nm + ".code")
        w.assume(AND(NOT(ult(c, const(300, 16))), ult(c, const(600, 16))))
        return {"code": c, "text": w.text(nm + ".reason", 15, 4)}
    return a.model(w, nm)


class Faults:
    """Runs an operation with one nested fallible operation, any of them, failing instead of what it does.

    A nested operation is a call of a function that returns Result<_, bytecodec::Error>, made by this crate or of a
    function of this crate. Which one fails is symbolic, so that one analysis is all of them."""

    BITS = 9

    def __init__(self, w):
        self.w = w
        self.which = w.bits(self.BITS, "fault")
        self.sites = []
        self.pass_once = False
        self.depth0 = None
        self.error = None

    def fallible(self, inst):
        t = self.w.L.T[inst.body["locals"][0]]
        if t.k != "adt" or not t.j["def"].endswith("result::Result"):
            return None
        a = [x for x in t.j["args"] if isinstance(x, int)]
        e = self.w.L.T[a[1]] if len(a) > 1 else None
        if e is None or e.k != "adt" or e.j["def"].split("::")[-1] != ERROR or e.j.get("krate") != "bytecodec":
            return None
        return a[1]

    def hook(self, ip, st, inst, args):
        if self.pass_once:
            self.pass_once = False
            return None
        if not ip.stack:
            return None             # the operation itself
        caller = ip.stack[-1]
        if not (inst.local or (caller.local and inst.j.get("krate") == "bytecodec")):
            return None
        et = self.fallible(inst)
        if et is None:
            return None
        self.pass_once = True
        s2, v = ip.run_body(st, inst, args)
        self.pass_once = False
        if s2 is None or s2.pc == 0:
            return s2, v
        i = len(self.sites) + 1
        if i >= 1 << self.BITS:
            raise Undecided("too many nested operations")
        f = eqc(self.which, i)
        if self.error is None:
            self.error = ip.sym(et, "injected error")
        self.sites.append((AND(s2.pc, f), caller, inst))
        err = Enum({0: 0, 1: 1}, {0: None, 1: (self.error,)})
        if implies(s2.pc, v.g.get(1, 0)) and v.p.get(1):
            return s2, v            # fails anyway
        ev = Enum({1: 1}, {1: (self.error,)})
        return s2, merge(f, ev, v)

    def run(self, f):
        ip = self.w.ip
        ip.hook = self.hook
        try:
            return f()
        finally:
            ip.hook = None

    def require(self, R, w, success, k):
        """Under `success` the whole operation succeeded: then no nested operation has failed."""
        seen = {}
        for g, caller, inst in self.sites:
            key = "%s < %s" % (inst.name[:120], caller.name[:120])
            seen.setdefault(key, []).append(g)
        for key, gs in seen.items():
            bad = 0
            for g in gs:
                bad = OR(bad, AND(g, success))
            R.require(w, "%s: %s" % (k, key), bad, "an error is swallowed: %s failed in %s, and the operation succeeds" % tuple(key.split(" < ", 1)))
        if not AND(AND(success, w.axioms), eqc(self.which, 0)):
            R.unknown(k, "the operation never succeeds")


def fault_value_decode(R, L, a, k, n_cuts):
    w = World(L)
    m = short_model(w, a, a.short)
    v = m["addr"].wire() if a.kind == "addr" else a.wire(m)
    F = Faults(w)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    f = L.method("Decode", "decode", dt)
    n = seq_len(v)
    ps = pieces(w, v, cuts(w, n, n_cuts))
    for j, c in enumerate(ps):
        og, r, eg, e = L.res(F.run(lambda: w.call(f, dp, w.slice_of(c), w.ip.eos(j == len(ps) - 1))))
        w.st.pc = AND(w.pc, og)
    og, o, eg, e = L.res(F.run(lambda: finish(w, dt, dp)))
    F.require(R, w, AND(w.pc, og), k)


def fault_sig_decode(R, L, a, k, n_cuts):
    w = World(L)
    v = seq_of([w.bits(8, "value[%d]" % i) for i in range(20 if a.kind == "mi" else 4)])
    F = Faults(w)
    dt = a.decoder(L)
    dp = fresh_codec(w, dt)
    f = L.method("Decode", "decode", dt)
    ps = pieces(w, v, cuts(w, seq_len(v), n_cuts))
    for j, c in enumerate(ps):
        og, r, eg, e = L.res(F.run(lambda: w.call(f, dp, w.slice_of(c), w.ip.eos(j == len(ps) - 1))))
        w.st.pc = AND(w.pc, og)
    og, o, eg, e = L.res(F.run(lambda: finish(w, dt, dp)))
    F.require(R, w, AND(w.pc, og), k)


def fault_value_encode(R, L, a, k, n_cuts):
    w = World(L)
    if a.kind in ("mi", "fp"):
        v = sample_signature(w, a, [w.bits(8, "%s[%d]" % (a.short, i)) for i in range(20 if a.kind == "mi" else 4)])
    else:
        v = a.make(w, short_model(w, a, a.short))
    F = Faults(w)
    et = a.encoder(L)
    ep = fresh_codec(w, et)
    og, _, eg, e = L.res(F.run(lambda: w.call(L.method("Encode", "start_encoding", et), ep, v)))
    w.st.pc = AND(w.pc, og)
    n = w.call(L.method("SizedEncode", "exact_requiring_bytes", et), ep)
    encode_all(w, F, et, ep, n, n_cuts)
    F.require(R, w, w.pc, k)


def encode_all(w, F, et, ep, n, n_cuts):
    L = w.L
    bp = w.obj(w.bytes("buffer", n))
    pos = k64(0)
    f = L.method("Encode", "encode", et)
    ends = cuts(w, n, n_cuts) + [n]
    for j, c in enumerate(ends):
        og, r, eg, e = L.res(F.run(lambda: w.call(f, ep, window(bp, pos, sub(c, pos)[0]), w.ip.eos(j == len(ends) - 1))))
        w.st.pc = AND(w.pc, og)
        pos = c
    return bp


def fault_message_decode(R, L, s, attrs, k, n_cuts):
    w = World(L)
    M = Msgs(L, s)
    W = Wire(w)
    for i, a in enumerate(attrs):
        if a.kind in ("mi", "fp"):
            v = seq_of([w.bits(8, "%s%d[%d]" % (a.short, i, x)) for x in range(20 if a.kind == "mi" else 4)])
        elif a.code is None:
            v = w.bytes("raw%d" % i, w.length("raw length%d" % i, 4))
        else:
            v = a.wire(short_model(w, a, "%s%d" % (a.short, i)))
        W.attr(a.code if a.code is not None else RAW, v)
    buf = W.bytes()
    F = Faults(w)
    dp = M.decoder(w)
    ps = pieces(w, buf, cuts(w, seq_len(buf), n_cuts))
    f = L.method("Decode", "decode", M.dec)
    for j, c in enumerate(ps):
        og, r, eg, e = L.res(F.run(lambda: w.call(f, dp, w.slice_of(c), w.ip.eos(j == len(ps) - 1))))
        w.st.pc = AND(w.pc, og)
    og, r, eg, e = L.res(F.run(lambda: finish(w, M.dec, dp)))
    w.st.pc = AND(w.pc, og)
    og, msg, bad, broken = L.res(r)
    F.require(R, w, AND(w.pc, og), k)


def fault_message_encode(R, L, s, attrs, k, n_cuts):
    w = World(L)
    M = Msgs(L, s)
    p = Parts(w, M)
    for i, a in enumerate(attrs):
        if a.kind in ("mi", "fp"):
            M.add(w, p.mp, a, sample_signature(w, a, [w.bits(8, "%s[%d]" % (a.short, j)) for j in range(20 if a.kind == "mi" else 4)]))
        else:
            p.add(a, "%s%d" % (a.short, i), short_model(w, a, "%s%d" % (a.short, i)))
    F = Faults(w)
    ep = M.encoder(w)
    og, _, eg, e = L.res(F.run(lambda: M.start(w, ep, w.read(p.mp))))
    w.st.pc = AND(w.pc, og)
    n = M.size(w, ep)
    encode_all(w, F, M.enc, ep, n, n_cuts)
    F.require(R, w, w.pc, k)


def fault_sign(R, L, which, k):
    w = World(L)
    s = SIGNED
    M = Msgs(L, s)
    p = Parts(w, M)
    p.add(BY_SHORT["Nonce"], "nonce")
    F = Faults(w)
    if which == "fingerprint":
        v = F.run(lambda: w.call(signer(L, "new", FP.tid(L), M.msg), p.mp))
    else:
        cr = Credentials(w, which == "long", "c")
        v = F.run(lambda: w.call(signer(L, cr.name("new"), MI.tid(L), M.msg), p.mp, *cr.args()))
    og, _, eg, e = L.res(v)
    F.require(R, w, AND(w.pc, og), k)


@check("C30", ["every call of a fallible operation (Result<_, bytecodec::Error>) made by this crate, or of a function of this crate, that is reached while values and messages are decoded and encoded and signatures are made is made to fail, one at a time: the whole operation does not succeed",
               "with no failure it succeeds"], floor=150)
def c30(L, tier):
    deep = tier != "quick"
    out = []
    for a in ATTRS:
        for nc in (0, 1) if not deep else (0, 1, 2):
            nm = "decode %s %d" % (a.short, nc)
            f = fault_sig_decode if a.kind in ("mi", "fp") else fault_value_decode
            out.append((nm, lambda R, a=a, nm=nm, nc=nc, f=f: f(R, L, a, nm, nc)))
            nm = "encode %s %d" % (a.short, nc)
            out.append((nm, lambda R, a=a, nm=nm, nc=nc: fault_value_encode(R, L, a, nm, nc)))
    for s in SET_NAMES:
        ms = Msgs(L, s).members()
        nm = "decode message %s nothing" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm: fault_message_decode(R, L, s, [], nm, 1)))
        nm = "encode message %s nothing" % short_set(s)
        out.append((nm, lambda R, s=s, nm=nm: fault_message_encode(R, L, s, [], nm, 1)))
        for i, a in enumerate(ms + [RAW_ATTR]):
            for nc in (0, 1):
                nm = "decode message %s %s %d" % (short_set(s), a.short, nc)
                out.append((nm, lambda R, s=s, a=a, nm=nm, nc=nc: fault_message_decode(R, L, s, [a], nm, nc)))
                if a.code is not None:
                    nm = "encode message %s %s %d" % (short_set(s), a.short, nc)
                    out.append((nm, lambda R, s=s, a=a, nm=nm, nc=nc: fault_message_encode(R, L, s, [a], nm, nc)))
            b = ms[(i + 1) % len(ms)]
            nm = "decode message %s %s and %s" % (short_set(s), a.short, b.short)
            out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: fault_message_decode(R, L, s, [a, b], nm, 0)))
            if a.code is not None:
                nm = "encode message %s %s and %s" % (short_set(s), a.short, b.short)
                out.append((nm, lambda R, s=s, a=a, b=b, nm=nm: fault_message_encode(R, L, s, [a, b], nm, 0)))
    for x in ("fingerprint", "short", "long"):
        nm = "sign " + x
        out.append((nm, lambda R, x=x, nm=nm: fault_sign(R, L, x, nm)))
    return out
