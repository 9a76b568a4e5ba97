"""Hooks of attributes, and the list they are shown."""
from checks_api import *
from checks_reuse import error_kind, broken_type


def shortened(v, pc, out, depth=0):
    """The lists within a value whose length was set to less than they hold."""
    if depth > 8:
        return
    if type(v) is Seq:
        if v.ln is not None:
            bad = AND(pc, NOT(eq(v.ln, seq_full_len(v))))
            if bad:
                out.append(bad)
        else:
            for g, segs in v.alts:
                for s in segs:
                    if s[0] == "L":
                        for x in s[1]:
                            if isinstance(x, (Agg, Enum, Seq)):
                                shortened(x, AND(pc, g), out, depth + 1)
    elif isinstance(v, Agg):
        for x in v.v:
            if isinstance(x, (Agg, Enum, Seq)):
                shortened(x, pc, out, depth + 1)
    elif type(v) is Enum:
        for i, p in v.p.items():
            for x in p or ():
                if isinstance(x, (Agg, Enum, Seq)):
                    shortened(x, AND(pc, v.g.get(i, 0)), out, depth + 1)


class Hooked:
    """An operation on a message during which every hook of a recognised attribute has an arbitrary result."""

    def __init__(self, R, w, M, hk, k, want, H, look):
        self.R, self.w, self.M, self.hk, self.k, self.want, self.H, self.look = R, w, M, hk, k, want, H, look
        self.log = []
        self.dropped = []

    def hook(self, ip, st, inst, args):
        w, M, L = self.w, self.M, self.w.L
        if inst.assoc != self.hk or not (inst.j.get("trait") or "").split("<")[0].endswith("::Attribute") or L.self_ty(inst) != M.set:
            return None
        j = len(self.log)
        r = ip.sym(inst.body["locals"][0], "result%d" % j)
        self.log.append((st.pc, r))
        if j < len(self.want[0]) and self.look:
            keep, h = w.st, ip.hook
            ip.hook = None
            w.st = st.fork(st.pc)
            try:
                self.seen(j, args)
            finally:
                w.st, ip.hook = keep, h
        return st, r

    def seen(self, j, args):
        """What the j-th hook call is given."""
        R, w, M, k = self.R, self.w, self.M, "%s: hook %d" % (self.k, j)
        knowns, raws, places = self.want
        a, m = knowns[j]
        r = w.call(try_as(w.L, M, a), args[0])
        some = r.g.get(1, 0)
        R.require(w, k + ": attribute", AND(w.pc, NOT(some)), "the hook of another attribute is called")
        st = w.st.fork(w.pc)
        w.st.pc = AND(w.pc, some)
        if w.pc:
            R.require(w, k + ": value", differs(w, m, a.observe(w, w.read(r.p[1][0])), w.pc), "the hook of another attribute is called")
        w.st = st
        msg = w.read(args[1])
        identity(R, w, M, msg, self.H, k)
        if len(knowns) > MANY and j % MANY:
            R.require(w, k + ": number of attributes", AND(w.pc, const(len(known_list(w, M, msg, j)) != j, 1).b[0]), "the hook is shown another number of attributes than there are before it")
            return
        content(R, w, M, msg, knowns[:j], k, raws[:places[j]])

    def on_drop(self, ip, st, ptr, span):
        try:
            v = ip.deref_read(st, ptr)
        except Undecided:
            return
        out = []
        shortened(v, st.pc, out)
        for b in out:
            self.dropped.append((b, span))

    def run(self, f):
        ip = self.w.ip
        ip.hook, ip.on_drop = self.hook, self.on_drop
        try:
            return f()
        finally:
            ip.hook = ip.on_drop = None

    def calls(self):
        """Every hook was called exactly once and in order, up to the first error. Returns the conditions of success and the error results."""
        R, w, k = self.R, self.w, self.k
        n = len(self.want[0])
        R.require(w, k + ": number of hook calls", AND(w.care, const(len(self.log) != n, 1).b[0]), "%d hook calls for %d attributes" % (len(self.log), n))
        ok = w.care
        for j, (g, r) in enumerate(self.log[:n]):
            R.require(w, "%s: call of hook %d" % (k, j), XOR(AND(g, w.care), ok), "a hook is not called, called more than once, or called after another one failed")
            ok = AND(ok, r.g.get(0, 0))
        return ok

    def safe(self):
        R, w, k = self.R, self.w, self.k
        bad = 0
        where = []
        for what, span, g, stack in w.ip.ub:
            q = AND(g, w.care)
            if q:
                bad = OR(bad, q)
                where.append("%s: %s" % (span, what))
        R.require(w, k + ": unchecked access", bad, "the list is accessed out of bounds", where[:3])
        bad = 0
        where = []
        for g, span in self.dropped:
            q = AND(g, w.care)
            if q:
                bad = OR(bad, q)
                where.append(str(span))
        R.require(w, k + ": restored", bad, "the list is dropped while it is shortened", where[:3])


def same_error(R, w, log, g, e, k, why):
    """Under g the error is that of the first hook that failed."""
    rest = AND(w.pc, g)
    bad = 0
    for h, r in log:
        q = AND(rest, r.g.get(1, 0))
        if q:
            bad = OR(bad, differs(w, error_kind(w, e), error_kind(w, r.p[1][0]), q))
        rest = AND(rest, NOT(r.g.get(1, 0)))
    R.require(w, k + ": error", bad, why)


def simple_members(L, s):
    pm = plain_members(L, s)
    r = [a for a in pm if a.kind in ("u32", "u64", "u16hi", "flags2", "channel")]
    return r + [a for a in pm if a.kind == "addr" and not a.xor and a not in r]


def hooks_encode(R, L, s, n, k, look, safe):
    w = World(L)
    M = Msgs(L, s)
    ms = simple_members(L, s) if n not in LONG else fixed_members(L, s)
    p = Parts(w, M)
    want = []
    n = list(n) if isinstance(n, (list, tuple)) else [ms[i % len(ms)] for i in range(n)]
    for i, a in enumerate(n):
        if a == "k":
            a = ms[0]
        if a.kind in ("mi", "fp"):
            raw = [w.bits(8, "%s%d[%d]" % (a.short, i, j)) for j in range(20 if a.kind == "mi" else 4)]
            v = sample_signature(w, a, raw)
            want.append((a, a.observe(w, v)))
            M.add(w, p.mp, a, v)
            p.wire = seq_cat(p.wire, attr_wire(w, const(a.code, 16), seq_of(raw)), w.pc)
            continue
        m = model_in(w, a, "%s%d" % (a.short, i), len(n) > MANY)
        M.add(w, p.mp, a, a.make(w, m))
        p.wire = seq_cat(p.wire, attr_wire(w, const(a.code, 16), a.wire(m)), w.pc)
        want.append((a, a.expect(w, m)))
    n = len(n)
    w.assume(ult(seq_len(p.wire), k64(0x10000)))
    H = Hooked(R, w, M, "before_encode", k, (want, [], [0] * n), p, look)
    ep = M.encoder(w)
    v = H.run(lambda: M.start(w, ep, w.read(p.mp)))
    og, o, eg, e = L.res(v)
    if look:
        ok = H.calls()
        R.require(w, k + ": success", XOR(AND(w.pc, og), ok), "encoding goes on although a hook failed, or fails although none did")
        if AND(w.pc, eg):
            same_error(R, w, H.log, eg, e, k, "the error is not that of the hook")
    if safe:
        H.safe()
    w.st.pc = AND(w.pc, og)
    if w.pc:
        x, og, o, buf = M.drain(w, ep)
        w.st.pc = AND(w.pc, og)
        R.require(w, k + ": all attributes", differs(w, w.read(buf), p.bytes(), w.pc), "attributes are lost, added or changed while hooks are called")
    no_panic(R, w, k)


def hooks_decode(R, L, s, shape, k, look, safe):
    """shape: k a recognised attribute, u an unknown one of any type, or an attribute."""
    w = World(L)
    M = Msgs(L, s)
    ms = simple_members(L, s) if len(shape) <= MANY else fixed_members(L, s)
    W = Wire(w)
    knowns, raws, places = [], [], []
    for i, x in enumerate(shape):
        if x == "u":
            v = w.bytes("value%d" % i, w.length("length%d" % i, 4)) if len(shape) <= MANY else seq_of([w.bits(8, "value%d[%d]" % (i, j)) for j in range(4)])
            code = w.bits(16, "type%d" % i) if len(shape) <= MANY else const(RAW, 16)
            if len(shape) <= MANY:
                for b in M.members():
                    w.assume(NOT(eqc(code, b.code)))
            W.attr(code, v)
            raws.append(v)
        elif x != "k" and x.kind in ("mi", "fp"):
            raw = [w.bits(8, "%s%d[%d]" % (x.short, i, j)) for j in range(20 if x.kind == "mi" else 4)]
            v = sample_signature(w, x, raw)
            W.attr(x.code, seq_of(raw))
            knowns.append((x, x.observe(w, v)))
            places.append(len(raws))
        else:
            a = ms[len(knowns) % len(ms)] if x == "k" else x
            m = model_in(w, a, "%s%d" % (a.short, i), len(shape) > MANY)
            if a.kind == "text128":
                w.assume(ult(w.chars(m["text"]), k64(128)))
                w.care = AND(w.care, w.axioms)
            W.attr(a.code, a.wire(m))
            knowns.append((a, a.expect(w, m)))
            places.append(len(raws))
    w.assume(ult(seq_len(W.body), k64(0x10000)))
    H = Hooked(R, w, M, "after_decode", k, (knowns, raws, places), W, look)
    dp = M.decoder(w)
    v = H.run(lambda: M.decode(w, dp, W.bytes()))
    og, used, eg, e = L.res(v)
    R.require(w, k + ": read", XOR(AND(w.pc, og), w.care), "a well-formed message is rejected")
    w.st.pc = AND(w.pc, og)
    v = H.run(lambda: M.finish(w, dp))
    og, r, eg, e = L.res(v)
    R.require(w, k + ": finished", XOR(AND(w.pc, og), w.care), "an error instead of a report of a broken message")
    w.st.pc = AND(w.pc, og)
    og, msg, eg, broken = L.res(r)
    if look:
        ok = H.calls()
        R.require(w, k + ": success", XOR(AND(w.pc, og), ok), "a message is delivered although a hook failed, or reported as broken although none did")
        if AND(w.pc, eg):
            st = w.st.fork(w.pc)
            w.st.pc = AND(w.pc, eg)
            x = w.call(L.method(None, "error", broken_type(L, M)), w.obj(broken))
            same_error(R, w, H.log, 1, w.read(x), k, "the error is not that of the hook")
            w.st = st
    if safe:
        H.safe()
    w.st.pc = AND(w.pc, og)
    if w.pc:
        out = []
        shortened(msg, w.pc, out)
        bad = 0
        for b in out:
            bad = OR(bad, b)
        R.require(w, k + ": full length", bad, "a message is delivered with a shortened list")
        if look:
            identity(R, w, M, msg, W, k)
        content(R, w, M, msg, knowns, k, raws)
    no_panic(R, w, k)


def hook_tasks(L, tier, look, safe):
    deep = tier != "quick"
    out = []
    for s in SET_NAMES:
        for n in range(0, 6 if not deep else 12):
            nm = "encode %s %d" % (short_set(s), n)
            out.append((nm, lambda R, s=s, n=n, nm=nm: hooks_encode(R, L, s, n, nm, look, safe)))
        shapes = ["", "k", "u", "kk", "ku", "uk", "uu", "kkk", "kuk", "uku", "ukk", "kku"]
        if deep:
            shapes += ["kkkk", "kukuk", "uukk", "kkuu", "uuuk", "kkkkkk", "kukukuk"]
        for sh in shapes:
            nm = "decode %s %s" % (short_set(s), sh or "none")
            out.append((nm, lambda R, s=s, sh=sh, nm=nm: hooks_decode(R, L, s, sh, nm, look, safe)))
        for n in LONG[:1] if not deep else LONG[:2]:
            nm = "encode %s %d" % (short_set(s), n)
            out.append((nm, lambda R, s=s, n=n, nm=nm: hooks_encode(R, L, s, n, nm, look, safe)))
            nm = "decode %s %d" % (short_set(s), n)
            out.append((nm, lambda R, s=s, n=n, nm=nm: hooks_decode(R, L, s, "kku" * (n // 3), nm, look, safe)))
        for a in Msgs(L, s).members():
            nm = "encode %s %s and another" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: hooks_encode(R, L, s, [a, "k"], nm, look, safe)))
            nm = "decode %s %s and another" % (short_set(s), a.short)
            out.append((nm, lambda R, s=s, a=a, nm=nm: hooks_decode(R, L, s, [a, "k"], nm, look, safe)))
            if deep:
                nm = "decode %s %s between others" % (short_set(s), a.short)
                out.append((nm, lambda R, s=s, a=a, nm=nm: hooks_decode(R, L, s, ["k", a, "u"], nm, look, safe)))
    return out


@check("C17", ["encoding messages of 0 to 5 attributes of any values, hooks with arbitrary results: every hook is called exactly once, in order, up to the first that fails, each on its attribute, with a message of the right identity that lists exactly the attributes before; the error is passed on",
               "decoding messages of known and unknown attributes in 12 orders: the same"], floor=60)
def c17(L, tier):
    return hook_tasks(L, tier, True, False)


@check("C20", ["every unchecked access to and length change of the attribute list while messages are encoded and decoded, hooks with arbitrary results: within the items there are",
               "the list has its full length wherever a message is dropped or delivered, and holds all attributes"], floor=60)
def c20(L, tier):
    return hook_tasks(L, tier, False, True)
