"""What the RFCs and the documentation of the crate say, independently of its code.

Every attribute: its codepoint, its value as bytes on the wire, and how a value of it is made and looked
at through its public interface.
"""
from lib import *
import bdd

COOKIE = 0x2112A442


class Diverges(Exception):
    """The call never returns on the inputs considered."""


def be(v):
    """Bytes of a bit-vector, most significant first."""
    n = v.w // 8
    return [BV(v.b[8 * i:8 * i + 8]) for i in reversed(range(n))]


def of_be(items):
    return cat(list(items))


def zero(n):
    return [const(0, 8)] * n


WORLDS = []
PART = [None]       # the part of the inputs that is looked at; None: all


class World:
    """One analysis: an interpreter, a state, and symbolic inputs."""

    def __init__(self, L, loop_limit=300):
        bdd.reset()
        self.L = L
        self.ip = L.interp(loop_limit=loop_limit)
        self.st = self.ip.start()
        self.care = 1
        self.doubts = []
        WORLDS.append(self)

    @property
    def pc(self):
        return self.st.pc

    @property
    def axioms(self):
        return self.ip.axioms

    def assume(self, g):
        self.care = AND(self.care, g)
        self.st.pc = AND(self.st.pc, g)
        if self.st.pc == 0:
            raise Diverges("assumption")

    def call(self, inst, *args):
        st, v = self.ip.call_inst(self.st, inst, list(args))
        if st is None:
            raise Diverges(inst.name)
        self.st = st
        return v

    def call_ok(self, inst, *args):
        """A call whose error results are left out of what follows."""
        v = self.call(inst, *args)
        og, o, eg, e = self.L.res(v)
        self.care = AND(self.care, NOT(AND(self.st.pc, NOT(og))))
        self.st.pc = AND(self.st.pc, og)
        if self.st.pc == 0:
            raise Diverges("error of " + inst.name)
        return o

    def obj(self, v):
        return self.ip.obj(self.st, v)

    def read(self, p):
        return self.ip.deref_read(self.st, p)

    def slice(self, p):
        return self.ip.slice_seq(self.st, p)

    def slice_of(self, seq):
        return self.ip.slice_ptr(self.st, seq)

    def bits(self, w, name):
        return self.ip.opq_bv(("in", name), w, name)

    def flag(self, name):
        return self.bits(1, name).b[0]

    def src(self, name):
        return self.ip.src(name, self.L.ty("u8"))

    def bytes(self, name, n):
        """An input byte string of length n (a bit-vector or a number)."""
        if isinstance(n, int):
            n = k64(n)
        return Seq(((1, (("S", self.src(name), k64(0), n),)),))

    def same(self, a, b):
        """The condition under which two lists of bytes are equal."""
        import models
        return models.eq_cond(self.ip, self.st, Agg(a), Agg(b))

    def interleaved(self, n, fn, apps):
        """Order the bits of several results of fn next to each other."""
        tabs = [[] for _ in range(apps)]
        for j in range(n):
            for a in range(apps):
                self.ip.seq += 1
                tabs[a].append(self.ip.seq)
        self.ip.byte_ids.setdefault(fn, []).extend(tabs)

    def paired(self, name, n, fn, apps=3):
        """Order the bits of the first n bytes of input `name` next to those of results of fn, which they are compared with."""
        src = self.src(name)
        tabs = [[] for _ in range(apps)]
        for j in range(n):
            self.ip.seq += 1 + apps
            v = bdd.fresh(self.ip.seq - apps, 8, "%s[%d]" % (name, j))
            src.const[j] = v
            src.seen.append((k64(j), v, 1))
            for a in range(apps):
                tabs[a].append(self.ip.seq - apps + 1 + a)
        self.ip.byte_ids.setdefault(fn, []).extend(tabs)
        return [src.const[j] for j in range(n)]

    def byte(self, name, i, pc=None):
        return src_get(self.src(name), k64(i), self.st.pc if pc is None else pc)

    def length(self, name, bits=17):
        return zext(self.size(name, bits), 64)

    def size(self, name, bits):
        """Any number of that many bits; where only a part of the inputs is looked at, a small one."""
        v = PART[0]
        if v is None:
            return self.bits(bits, name)
        if v < 2:
            return zext(self.bits(min(bits, (3, 5)[v]), name), bits)
        import random
        return const(random.Random("%d %s" % (v, name)).choice((1, 2, 3, 4, 5, 6, 7, 8)), bits)

    def text(self, name, maxlen, bits):
        """A String: valid UTF-8 of at most maxlen bytes."""
        n = self.ip.opq_bv(("len", name), bits, "len(%s)" % name) if PART[0] is None else self.size("len(%s)" % name, bits)
        self.ip.utf8_srcs.add(name)
        ln = zext(n, 64)
        self.assume(NOT(ult(const(maxlen, bits), n)))
        return Seq(((1, (("S", self.src(name), k64(0), ln),)),))


# ---- standard library types

def field_of(w, tid, v, name):
    t = w.L.T[tid]
    for i, f in enumerate(t.j["variants"][0]["fields"]):
        if f[0] == name:
            return v.v[i], f[1]
    raise Anchor("field %s of %s" % (name, t.name))


def build(w, tid, **kw):
    t = w.L.T[tid]
    return Agg(kw[f[0]](f[1]) for f in t.j["variants"][0]["fields"])


def newtype(w, tid, v):
    """Wrap a scalar in the single-field structures around it."""
    t = w.L.T[tid]
    while t.bits is None and t.k == "adt":
        f = t.j["variants"][0]["fields"]
        return Agg((newtype(w, f[0][1], v),))
    return v


def un_newtype(v):
    while isinstance(v, Agg):
        v = v.v[0]
    return v


class Addr:
    """An IP address and a port: v6 is the condition under which it is IPv6."""

    def __init__(self, v6, ip4, ip6, port):
        self.v6, self.ip4, self.ip6, self.port = v6, ip4, ip6, port

    @staticmethod
    def fresh(w, nm):
        return Addr(w.flag(nm + ".v6"), be(w.bits(32, nm + ".ip4")), be(w.bits(128, nm + ".ip6")), w.bits(16, nm + ".port"))

    def rust(self, w):
        t = w.L.T[w.L.ty("std::net::SocketAddr")]
        names = [v["name"] for v in t.j["variants"]]
        p = {}
        for i, v in enumerate(t.j["variants"]):
            octs = self.ip4 if v["name"] == "V4" else self.ip6
            st = v["fields"][0][1]
            inner = build(w, st, ip=lambda f: build(w, f, octets=lambda g: Agg(octs)), port=lambda f: self.port,
                          flowinfo=lambda f: const(0, 32), scope_id=lambda f: const(0, 32))
            p[i] = (inner,)
        return Enum({names.index("V4"): NOT(self.v6), names.index("V6"): self.v6}, p)

    @staticmethod
    def observe(w, v):
        t = w.L.T[w.L.ty("std::net::SocketAddr")]
        names = [x["name"] for x in t.j["variants"]]
        i4, i6 = names.index("V4"), names.index("V6")
        g6 = v.g.get(i6, 0)

        def get(i, n):
            p = v.p.get(i)
            if not p or not v.g.get(i, 0):
                return None, None
            st = t.j["variants"][i]["fields"][0][1]
            ip, ipt = field_of(w, st, p[0], "ip")
            o, _ = field_of(w, ipt, ip, "octets")
            port, _ = field_of(w, st, p[0], "port")
            return list(o.v), port
        o4, p4 = get(i4, 4)
        o6, p6 = get(i6, 16)
        port = p4 if p6 is None else p6 if p4 is None else ite_bv(g6, p6, p4)
        return Addr(g6, o4 or zero(4), o6 or zero(16), port)

    def wire(self, first=None):
        f = first if first is not None else const(0, 8)
        v4 = (("L", tuple([f, const(1, 8)] + be(self.port) + list(self.ip4))),)
        v6 = (("L", tuple([f, const(2, 8)] + be(self.port) + list(self.ip6))),)
        if self.v6 == 0:
            return Seq(((1, v4),))
        if self.v6 == 1:
            return Seq(((1, v6),))
        return Seq(((NOT(self.v6), v4), (self.v6, v6)))

    def xor(self, tid):
        """RFC 5389 15.2: the port with the high half of the cookie, the address with cookie (and transaction id)."""
        ck = [const(x, 8) for x in COOKIE.to_bytes(4, "big")]
        key = ck + list(tid)
        x = lambda a, b: bitop(XOR, a, b)
        return Addr(self.v6, [x(a, b) for a, b in zip(self.ip4, key)], [x(a, b) for a, b in zip(self.ip6, key)],
                    x(self.port, const(COOKIE >> 16, 16)))


def differs(w, a, b, pc):
    """The condition, within pc, under which two abstract values are different.

    Sequences whose equality is not established go to w.doubts as well: (a, b, condition)."""
    if a is b or pc == 0:
        return 0
    if type(a) is BV and type(b) is BV:
        if a.w != b.w:
            return pc
        r = 0
        for x, y in zip(a.b, b.b):
            if x != y:
                r = OR(r, AND(pc, XOR(x, y)))
        return r
    if isinstance(a, int) and isinstance(b, int):
        return AND(pc, XOR(a, b))
    if type(a) is Addr and type(b) is Addr:
        d = AND(pc, XOR(a.v6, b.v6))
        d = OR(d, differs(w, a.port, b.port, pc))
        for x, y in zip(a.ip4, b.ip4):
            d = OR(d, differs(w, x, y, AND(pc, NOT(OR(a.v6, b.v6)))))
        for x, y in zip(a.ip6, b.ip6):
            d = OR(d, differs(w, x, y, AND(pc, AND(a.v6, b.v6))))
        return d
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return pc
        d = 0
        for x, y in zip(a, b):
            d = OR(d, differs(w, x, y, pc))
        return d
    if isinstance(a, dict):
        d = 0
        for k in a:
            d = OR(d, differs(w, a[k], b[k], pc))
        return d
    if isinstance(a, Agg) and isinstance(b, Agg):
        return differs(w, a.v, b.v, pc)
    if type(a) is Enum and type(b) is Enum:
        d = 0
        for k in set(a.g) | set(b.g):
            x, y = a.g.get(k, 0), b.g.get(k, 0)
            d = OR(d, AND(pc, XOR(x, y)))
            p = AND(pc, AND(x, y))
            if p:
                d = OR(d, differs(w, a.p.get(k) or (), b.p.get(k) or (), p))
        return d
    if type(a) is Seq and type(b) is Seq:
        d = differs(w, seq_len(a), seq_len(b), pc)
        rest = AND(pc, NOT(d))
        if rest:
            ia, ib = seq_const_items(a), seq_const_items(b)
            if ia is not None and ib is not None and len(ia) == len(ib):
                return OR(d, differs(w, ia, ib, rest))
            if not seq_eq(a, b, rest):
                w.doubts.append((a, b, rest))
        return d
    if not val_eq(a, b, pc):
        w.doubts.append((a, b, pc))
    return 0


# ---- the attributes

class Attr:
    """kind: how the value looks; xor: addresses that travel XORed with the transaction id."""

    def __init__(self, name, code, kind, acc=(), xor=False):
        self.name = name            # module path below the crate
        self.code = code
        self.kind = kind
        self.acc = acc              # names of the public accessors, in the order of the model
        self.xor = xor
        self.short = name.split("::")[-1]

    def tid(self, L):
        return L.impl_of(self.name)["self"]

    def decoder(self, L):
        return L.impl_of(self.name)["assoc"]["Decoder"]

    def encoder(self, L):
        return L.impl_of(self.name)["assoc"]["Encoder"]

    # -- values

    def model(self, w, nm):
        """A symbolic value within the documented range."""
        k = self.kind
        if k == "addr":
            return {"addr": Addr.fresh(w, nm)}
        if k in ("u32", "u64"):
            return {"v": w.bits(int(k[1:]), nm)}
        if k == "empty":
            return {}
        if k == "text128":
            t = w.text(nm, 508, 9)
            return {"text": t}
        if k == "text513":
            return {"text": w.text(nm, 512, 10)}
        if k == "bytes":
            n = w.ip.opq_bv(("len", nm), 16, "len(%s)" % nm)
            return {"bytes": w.bytes(nm, zext(n, 64))}
        if k == "error":
            c = w.bits(16, nm + ".code")
            w.assume(AND(NOT(ult(c, const(300, 16))), ult(c, const(600, 16))))
            return {"code": c, "text": w.text(nm + ".reason", 763, 10)}
        if k == "list":
            n = w.bits(2, nm + ".n")
            its = [w.bits(16, "%s.%d" % (nm, i)) for i in range(3)]
            return {"list": (n, its)}
        if k == "channel":
            c = w.bits(16, nm)
            w.assume(AND(NOT(ult(c, const(0x4000, 16))), NOT(ult(const(0x4FFF, 16), c))))
            return {"v": c}
        if k == "secs":
            return {"v": w.bits(32, nm)}
        if k == "flag":
            return {"f": w.flag(nm)}
        if k == "u8hi":
            return {"v": w.bits(8, nm)}
        if k == "flags2":
            return {"ip": w.flag(nm + ".ip"), "port": w.flag(nm + ".port")}
        if k == "u16hi":
            return {"v": w.bits(16, nm)}
        if k == "family":
            return {"v6": w.flag(nm + ".v6")}
        if k == "raw":
            return {"type": w.bits(16, nm + ".type"), "bytes": w.bytes(nm, w.length("len(%s)" % nm, 17))}
        raise Anchor("kind " + k)

    def wire(self, m):
        """The bytes of the value (XORed attributes: of what the XOR leaves, see Addr.xor)."""
        k = self.kind
        if k == "addr":
            return m["addr"].wire()
        if k in ("u32", "u64", "secs"):
            return seq_of(be(m["v"]))
        if k == "empty":
            return seq_of(())
        if k in ("text128", "text513"):
            return m["text"]
        if k in ("bytes", "raw"):
            return m["bytes"]
        if k == "error":
            q, r = udivrem(zext(m["code"], 32), const(100, 32))
            return seq_cat(seq_of(zero(2) + [trunc(q, 8), trunc(r, 8)]), m["text"])
        if k == "list":
            n, its = m["list"]
            if "fixed" in m:
                return seq_of([b for x in its for b in be(x)])
            al = []
            for i in range(4):
                bs = [b for x in its[:i] for b in be(x)]
                al.append((eqc(n, i), (("L", tuple(bs)),) if bs else ()))
            return Seq(tuple(a for a in al if a[0]))
        if k in ("channel", "u16hi"):
            return seq_of(be(m["v"]) + zero(2))
        if k == "flag":
            return seq_of([BV((0,) * 7 + (m["f"],))])
        if k == "u8hi":
            return seq_of([m["v"]] + zero(3))
        if k == "flags2":
            return seq_of(zero(3) + [BV((0, m["port"], m["ip"]) + (0,) * 5)])
        if k == "family":
            return seq_of([BV((NOT(m["v6"]), m["v6"]) + (0,) * 6)] + zero(3))
        raise Anchor("kind " + k)

    def make(self, w, m):
        """The attribute with this content, made with its public constructor."""
        L, T = w.L, w.L.T
        tid = self.tid(L)
        k = self.kind
        if k == "fixed20":
            return newtype(w, tid, m)
        if k == "empty":
            c = L.ctor(None, "new", tid, opt=True)
            if c is not None:
                return w.call(c)
            t = T[tid]
            return Agg(())
        if k == "secs":
            c = L.ctor(None, "from_u32", tid)
            return w.call(c, m["v"])
        c = L.ctor(None, "new", tid)
        if k == "addr":
            return w.call(c, m["addr"].rust(w))
        if k == "raw":
            return w.call(c, newtype(w, L.ty("attribute::AttributeType"), m["type"]), m["bytes"])
        if k in ("u32", "u64", "u8hi", "u16hi"):
            return w.call(c, m["v"])
        if k in ("text128", "text513"):
            return w.call_ok(c, m["text"])
        if k == "bytes":
            return w.call_ok(c, m["bytes"])
        if k == "error":
            return w.call_ok(c, m["code"], m["text"])
        if k == "list":
            n, its = m["list"]
            at = L.ty("attribute::AttributeType")
            if "fixed" in m:
                return w.call(c, seq_of([newtype(w, at, x) for x in its]))
            al = []
            for i in range(4):
                vs = [newtype(w, at, x) for x in its[:i]]
                al.append((eqc(n, i), (("L", tuple(vs)),) if vs else ()))
            return w.call(c, Seq(tuple(a for a in al if a[0])))
        if k == "channel":
            return w.call_ok(c, m["v"])
        if k == "flag":
            return w.call(c, BV((m["f"],)))
        if k == "flags2":
            return w.call(c, BV((m["ip"],)), BV((m["port"],)))
        if k == "family":
            return w.call(c, family(w, m["v6"]))
        raise Anchor("kind " + k)

    def observe(self, w, v):
        """What the public accessors say about an attribute."""
        L = w.L
        tid = self.tid(L)
        k = self.kind
        out = []
        for a in self.acc:
            i = L.method(None, a, tid)
            by_ref = L.T[i.body["locals"][1]].k == "ref"
            out.append(w.call(i, w.obj(v) if by_ref else v))
        if k == "addr":
            return {"addr": Addr.observe(w, out[0])}
        if k in ("u32", "u64", "u8hi", "u16hi", "channel"):
            return {"v": un_newtype(out[0])}
        if k in ("text128", "text513"):
            return {"text": w.slice(out[0])}
        if k == "bytes":
            return {"bytes": w.slice(out[0])}
        if k == "raw":
            t = w.call(L.method("Attribute", "get_type", tid), w.obj(v))
            return {"type": un_newtype(t), "bytes": w.slice(out[0])}
        if k == "error":
            return {"code": out[0], "text": w.slice(out[1])}
        if k == "list":
            return {"list": w.slice(out[0])}
        if k == "secs":
            dt = L.ty("std::time::Duration")
            s, _ = field_of(w, dt, out[0], "secs")
            n, _ = field_of(w, dt, out[0], "nanos")
            return {"v": trunc(s, 32), "hi": BV(s.b[32:]), "nanos": un_newtype(n)}
        if k == "flag":
            return {"f": out[0].b[0]}
        if k == "flags2":
            return {"ip": out[0].b[0], "port": out[1].b[0]}
        if k == "family":
            return {"v6": family_is_v6(w, out[0])}
        return {}

    def expect(self, w, m):
        """The model as the accessors should show it."""
        if self.kind == "list":
            n, its = m["list"]
            at = w.L.ty("attribute::AttributeType")
            al = []
            for i in range(4):
                vs = [newtype(w, at, x) for x in its[:i]]
                al.append((eqc(n, i), (("L", tuple(vs)),) if vs else ()))
            return {"list": Seq(tuple(a for a in al if a[0]))}
        if self.kind == "secs":
            return {"v": m["v"], "hi": const(0, 32), "nanos": const(0, 32)}
        return m

    # -- values on the wire, read

    def parse(self, w, name, n):
        """(acceptance condition, model) of n bytes of input `name`; n is a bit-vector.

        Longer values than the attribute has are rejected."""
        b = lambda i: w.byte(name, i)
        k = self.kind
        seq = w.bytes(name, n)
        if k == "addr":
            fam = b(1)
            v4, v6 = eqc(fam, 1), eqc(fam, 2)
            acc = OR(AND(v4, eqc(n, 8)), AND(v6, eqc(n, 20)))
            return acc, {"addr": Addr(v6, [b(i) for i in range(4, 8)], [b(i) for i in range(4, 20)], of_be([b(2), b(3)]))}
        if k in ("u32", "u64", "secs"):
            z = 8 if k == "u64" else 4
            m = {"v": of_be([b(i) for i in range(z)])}
            return eqc(n, z), m
        if k == "empty":
            return eqc(n, 0), {}
        if k in ("text128", "text513"):
            ok = w.is_text(seq)
            if k == "text128":
                lim = ult(w.chars(seq), k64(128))
            else:
                lim = ult(n, k64(513))
            return AND(ok, lim), {"text": seq}
        if k == "bytes":
            return 1, {"bytes": seq}
        if k == "error":
            rest = Seq(((1, (("S", w.src(name), k64(4), sub(n, k64(4))[0]),)),))
            long = NOT(ult(n, k64(4)))
            cls, num = trunc(b(2), 3), b(3)
            ok = AND(long, AND(AND(NOT(ult(cls, const(3, 3))), ult(cls, const(6, 3))), ult(num, const(100, 8))))
            ok = AND(ok, w.is_text(rest, ok))
            code, _ = add(mul(zext(cls, 16), const(100, 16))[0], zext(num, 16))
            return ok, {"code": code, "text": rest}
        if k in ("channel", "u16hi"):
            v = of_be([b(0), b(1)])
            acc = eqc(n, 4)
            if k == "channel":
                acc = AND(acc, AND(NOT(ult(v, const(0x4000, 16))), NOT(ult(const(0x4FFF, 16), v))))
            return acc, {"v": v}
        if k == "flag":
            return eqc(n, 1), {"f": b(0).b[7]}
        if k == "u8hi":
            return eqc(n, 4), {"v": b(0)}
        if k == "flags2":
            return eqc(n, 4), {"ip": b(3).b[2], "port": b(3).b[1]}
        if k == "family":
            return AND(eqc(n, 4), OR(eqc(b(0), 1), eqc(b(0), 2))), {"v6": eqc(b(0), 2)}
        raise Anchor("kind " + k)


    def reserved(self, w, name):
        """The bits of a value that have no meaning, as a bit-vector (zero when sent as the RFC says)."""
        b = lambda i: w.byte(name, i)
        k = self.kind
        if k == "addr":
            return b(0)
        if k == "error":
            return cat([b(0), b(1), BV(b(2).b[3:])])
        if k in ("channel", "u16hi"):
            return cat([b(2), b(3)])
        if k == "flag":
            return BV(b(0).b[:7])
        if k in ("u8hi", "family"):
            return cat([b(1), b(2), b(3)])
        if k == "flags2":
            return cat([b(0), b(1), b(2), BV((b(3).b[0],) + b(3).b[3:])])
        return BV((0,))


def family(w, v6):
    t = w.L.T[w.L.ty("rfc8656::attributes::AddressFamily")]
    names = [v["name"] for v in t.j["variants"]]
    i4 = [i for i, n in enumerate(names) if n.upper().endswith("V4")][0]
    i6 = [i for i, n in enumerate(names) if n.upper().endswith("V6")][0]
    return Enum({i4: NOT(v6), i6: v6}, {i4: (), i6: ()})


def family_is_v6(w, v):
    t = w.L.T[w.L.ty("rfc8656::attributes::AddressFamily")]
    names = [v["name"] for v in t.j["variants"]]
    i6 = [i for i, n in enumerate(names) if n.upper().endswith("V6")][0]
    return v.g.get(i6, 0)


def trunc(v, w):
    return BV(v.b[:w])


def _is_text(self, seq, pc=None):
    import models
    st = self.st if pc is None else State(AND(self.st.pc, pc), {}, ())
    if st.pc == 0:
        return 0
    return models.is_text(self.ip, st, seq)


def _chars(self, seq):
    import models
    return models.char_count(self.ip, self.st, seq)


World.is_text = _is_text
World.chars = _chars

A = Attr
ATTRS = [
    A("rfc5389::attributes::MappedAddress", 0x0001, "addr", ("address",)),
    A("rfc5389::attributes::Username", 0x0006, "text513", ("name",)),
    A("rfc5389::attributes::MessageIntegrity", 0x0008, "mi"),
    A("rfc5389::attributes::ErrorCode", 0x0009, "error", ("code", "reason_phrase")),
    A("rfc5389::attributes::UnknownAttributes", 0x000A, "list", ("unknowns",)),
    A("rfc5389::attributes::Realm", 0x0014, "text128", ("text",)),
    A("rfc5389::attributes::Nonce", 0x0015, "text128", ("value",)),
    A("rfc5389::attributes::XorMappedAddress", 0x0020, "addr", ("address",), xor=True),
    A("rfc5389::attributes::XorMappedAddress2", 0x8020, "addr", ("address",), xor=True),
    A("rfc5389::attributes::Software", 0x8022, "text128", ("description",)),
    A("rfc5389::attributes::AlternateServer", 0x8023, "addr", ("address",)),
    A("rfc5389::attributes::Fingerprint", 0x8028, "fp", ("crc32",)),
    A("rfc5766::attributes::ChannelNumber", 0x000C, "channel", ("value",)),
    A("rfc5766::attributes::Lifetime", 0x000D, "secs", ("lifetime",)),
    A("rfc5766::attributes::XorPeerAddress", 0x0012, "addr", ("address",), xor=True),
    A("rfc5766::attributes::Data", 0x0013, "bytes", ("data",)),
    A("rfc5766::attributes::XorRelayAddress", 0x0016, "addr", ("address",), xor=True),
    A("rfc5766::attributes::EvenPort", 0x0018, "flag", ("is_requested",)),
    A("rfc5766::attributes::RequestedTransport", 0x0019, "u8hi", ("protocol",)),
    A("rfc5766::attributes::DontFragment", 0x001A, "empty"),
    A("rfc5766::attributes::ReservationToken", 0x0022, "u64", ("token",)),
    A("rfc5245::attributes::Priority", 0x0024, "u32", ("prio",)),
    A("rfc5245::attributes::UseCandidate", 0x0025, "empty"),
    A("rfc5245::attributes::IceControlled", 0x8029, "u64", ("prio",)),
    A("rfc5245::attributes::IceControlling", 0x802A, "u64", ("prio",)),
    A("rfc5780::attributes::ChangeRequest", 0x0003, "flags2", ("ip", "port")),
    A("rfc5780::attributes::ResponseOrigin", 0x802B, "addr", ("address",)),
    A("rfc5780::attributes::OtherAddress", 0x802C, "addr", ("address",)),
    A("rfc5780::attributes::ResponsePort", 0x0027, "u16hi", ("port",)),
    A("rfc8016::attributes::MobilityTicket", 0x8030, "bytes", ("data",)),
    A("rfc8656::attributes::RequestedAddressFamily", 0x0017, "family", ("address_family",)),
    A("rfc8656::attributes::AdditionalAddressFamily", 0x8000, "family", ("address_family",)),
]
RAW_ATTR = A("attribute::RawAttribute", None, "raw", ("value",))
BY_SHORT = {a.short: a for a in ATTRS}
PLAIN = [a for a in ATTRS if a.kind not in ("mi", "fp")]
