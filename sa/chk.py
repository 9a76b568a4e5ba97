"""What the checks have in common."""
from msg import *

ASSUMPTIONS = [
    "The MIR that the nightly compiler builds from the sources is the program (no release-only behaviour; 64-bit target).",
    "The models of standard library functions (sa/models.py) and of crc, hmac, sha1 and md5 as functions of their input are right.",
    "Memory can be allocated.",
]
CHECKS = {}


class Check:
    cfg = None

    def __init__(self, prop, f, rules, explanation, assumptions, floor):
        self.prop, self.f, self.rules = prop, f, rules
        self.explanation, self.assumptions, self._floor = explanation, assumptions, floor

    def tasks(self, L, tier):
        return self.f(L, tier)

    def floor(self, tier):
        return self._floor


def check(prop, rules, explanation="", assumptions=(), floor=1):
    def deco(f):
        CHECKS[prop] = Check(prop, f, list(rules), BASE + explanation, assumptions, floor)
        return f
    return deco


BASE = ("Abstract interpretation of the compiled (MIR) program from its public entry points over a bit-precise domain: scalars are vectors of "
        "decision diagrams over the bits of the inputs, byte sequences have symbolic lengths, states are joined where control flow joins. "
        "Nothing is executed. Every obligation is the emptiness of a condition. ")

SET_NAMES = list(PREDEFINED)


def any_set(tier):
    return SET_NAMES


def short_set(name):
    return name.split("::")[0]


def no_panic(R, w, key):
    """Nothing analysed so far in this world panics."""
    g = 0
    where = []
    for p in w.ip.panics:
        q = AND(AND(p.guard, w.care), w.axioms)
        if q:
            g = OR(g, q)
            where.append("%s: %s in %s" % (p.where, p.kind, " < ".join(x.name[:80] for x in p.stack[-3:][::-1]) if p.stack and hasattr(p.stack[0], "name") else p.stack[-3:]))
    return R.require(w, key + ": no panic", g, "panics", where[:3])


class Parts:
    """A message under construction with symbolic class, method and transaction id."""

    def __init__(self, w, M, nm=""):
        self.w, self.M = w, M
        self.c, self.cb = M.cls(w, w.bits(2, nm + "class"))
        self.m, self.mb = M.method(w, w.bits(12, nm + "method"))
        self.t, self.tb = M.tid(w, nm + "tid")
        self.mp = w.obj(M.new(w, self.c, self.m, self.t))
        self.wire = seq_of(())

    def add(self, a, nm, model=None):
        w, M = self.w, self.M
        m = model if model is not None else a.model(w, nm)
        v = a.make(w, m)
        M.add(w, self.mp, a, v)
        self.append(a, m)
        return m, v

    def append(self, a, m):
        val = m["addr"].xor(self.tb).wire() if a.xor else a.wire(m)
        self.wire = seq_cat(self.wire, attr_wire(self.w, m["type"] if a.code is None else const(a.code, 16), val), self.w.pc)
        return val

    def bytes(self):
        return seq_cat(seq_of(header(self.cb, self.mb, seq_len(self.wire), self.tb)), self.wire, self.w.pc)


class Wire:
    """A well-framed message as bytes: header of symbolic class, method, id; attributes as they are added."""

    def __init__(self, w, nm=""):
        self.w = w
        self.cb, self.mb = w.bits(2, nm + "class"), w.bits(12, nm + "method")
        self.tb = [w.bits(8, "%stid[%d]" % (nm, i)) for i in range(12)]
        self.body = seq_of(())
        self.nm = nm
        self.attrs = []

    def attr(self, code, value, pad=None):
        """Append an attribute with arbitrary padding bytes."""
        w = self.w
        n = seq_len(value)
        if pad is None:
            pad = w.bytes("%spad%d" % (self.nm, len(self.attrs)), pad_len(n))
        code = const(code, 16) if isinstance(code, int) else code
        one = seq_cat(seq_cat(seq_of(be(code) + be(trunc(n, 16))), value, w.pc), pad, w.pc)
        self.attrs.append((code, value, pad, one))
        self.body = seq_cat(self.body, one, w.pc)
        return one

    def bytes(self, length=None, cookie=None, typ=None):
        n = seq_len(self.body) if length is None else length
        h = header(self.cb, self.mb, n, self.tb)
        if cookie is not None:
            h[4:8] = cookie
        if typ is not None:
            h[0:2] = be(typ)
        return seq_cat(seq_of(h), self.body, self.w.pc)


def decode(w, M, seq, eos=True, dp=None, total=None):
    """Decode a buffer. Returns (accepted by decode and finish, outer value Result<Message, Broken>, consumed, rejected)."""
    dp = dp if dp is not None else M.decoder(w)
    v = M.decode(w, dp, seq, eos)
    og, n, eg, e = w.L.res(v)
    pc0 = w.pc
    if AND(pc0, og) == 0:
        return 0, None, n, pc0
    w.st.pc = AND(pc0, og)
    v = M.finish(w, dp)
    og2, r, eg2, e2 = w.L.res(v)
    acc = AND(w.pc, og2)
    # Both ways out are kept apart: the caller goes on under acc.
    rej = AND(OR(pc0, w.pc), NOT(acc))
    w.st.pc = acc
    return acc, r, n, rej


def reset_to(w, st):
    w.st = st


def message_of(w, r):
    """Of Result<Message, BrokenMessage>: (guard, message, guard, broken)."""
    return w.L.res(r)


def known_type(w, M, v, mb):
    return un_newtype(M.get(w, v, "method"))
