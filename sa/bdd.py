"""Reduced ordered binary decision diagrams, and bit-vectors of them.

The abstract domain of the analysis: every bit of every scalar is a canonical boolean function of the
input bits (and of the bits of opaque terms), so equality of two abstract values is identity of nodes.
"""
import sys
sys.setrecursionlimit(1000000)

VAR = [1 << 60, 1 << 60]
LO = [0, 1]
HI = [0, 1]
UNIQ = {}
C_AND = {}
C_XOR = {}
C_ITE = {}
C_RES = {}
NAMES = {}      # level -> readable name of the bit
BUDGET = [40000000]


class Budget(Exception):
    pass


def mk(v, l, h):
    if l == h:
        return l
    k = (v, l, h)
    r = UNIQ.get(k)
    if r is None:
        r = len(VAR)
        if r > BUDGET[0]:
            raise Budget("decision diagram too large")
        VAR.append(v)
        LO.append(l)
        HI.append(h)
        UNIQ[k] = r
    return r


def var(level, name=None):
    if name is not None:
        NAMES[level] = name
    return mk(level, 0, 1)


def AND(a, b):
    if a == b:
        return a
    if a > b:
        a, b = b, a
    if a == 0:
        return 0
    if a == 1:
        return b
    k = (a, b)
    r = C_AND.get(k)
    if r is not None:
        return r
    va, vb = VAR[a], VAR[b]
    if va == vb:
        r = mk(va, AND(LO[a], LO[b]), AND(HI[a], HI[b]))
    elif va < vb:
        r = mk(va, AND(LO[a], b), AND(HI[a], b))
    else:
        r = mk(vb, AND(a, LO[b]), AND(a, HI[b]))
    C_AND[k] = r
    return r


def XOR(a, b):
    if a == b:
        return 0
    if a > b:
        a, b = b, a
    if a == 0:
        return b
    k = (a, b)
    r = C_XOR.get(k)
    if r is not None:
        return r
    if a == 1:
        r = mk(VAR[b], XOR(1, LO[b]), XOR(1, HI[b]))
    else:
        va, vb = VAR[a], VAR[b]
        if va == vb:
            r = mk(va, XOR(LO[a], LO[b]), XOR(HI[a], HI[b]))
        elif va < vb:
            r = mk(va, XOR(LO[a], b), XOR(HI[a], b))
        else:
            r = mk(vb, XOR(a, LO[b]), XOR(a, HI[b]))
    C_XOR[k] = r
    return r


def NOT(a):
    return 1 - a if a < 2 else XOR(1, a)


def OR(a, b):
    if a == b or b == 0:
        return a
    if a == 0:
        return b
    if a == 1 or b == 1:
        return 1
    return NOT(AND(NOT(a), NOT(b)))


def ITE(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if a == 1 and b == 0:
        return c
    if a == 0 and b == 1:
        return NOT(c)
    if b == 0:
        return AND(c, a)
    if a == 0:
        return AND(NOT(c), b)
    if a == 1:
        return OR(c, b)
    if b == 1:
        return OR(NOT(c), a)
    k = (c, a, b)
    r = C_ITE.get(k)
    if r is not None:
        return r
    vc, va, vb = VAR[c], VAR[a], VAR[b]
    v = vc if vc < va else va
    if vb < v:
        v = vb
    c0, c1 = (LO[c], HI[c]) if vc == v else (c, c)
    a0, a1 = (LO[a], HI[a]) if va == v else (a, a)
    b0, b1 = (LO[b], HI[b]) if vb == v else (b, b)
    r = mk(v, ITE(c0, a0, b0), ITE(c1, a1, b1))
    C_ITE[k] = r
    return r


def restrict(f, c):
    """A function that agrees with f wherever c holds, usually smaller (Coudert-Madre)."""
    if f < 2 or c == 1:
        return f
    if c == 0:
        return 0
    if f == c:
        return 1
    k = (f, c)
    r = C_RES.get(k)
    if r is not None:
        return r
    vf, vc = VAR[f], VAR[c]
    if vc < vf:
        r = restrict(f, OR(LO[c], HI[c]))
    elif vf < vc:
        r = mk(vf, restrict(LO[f], c), restrict(HI[f], c))
    else:
        c0, c1 = LO[c], HI[c]
        if c0 == 0:
            r = restrict(HI[f], c1)
        elif c1 == 0:
            r = restrict(LO[f], c0)
        else:
            r = mk(vf, restrict(LO[f], c0), restrict(HI[f], c1))
    C_RES[k] = r
    return r


def implies(a, b):
    return AND(a, NOT(b)) == 0


def support(f, seen=None, out=None):
    if seen is None:
        seen, out = set(), set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        out.add(VAR[x])
        stack.append(LO[x])
        stack.append(HI[x])
    return out


def witness(f):
    """One assignment of the bits that makes f true, as {level: bool}."""
    out = {}
    while f > 1:
        if HI[f] != 0:
            out[VAR[f]] = True
            f = HI[f]
        else:
            out[VAR[f]] = False
            f = LO[f]
    return out


def evaluate(f, asg):
    while f > 1:
        f = HI[f] if asg.get(VAR[f], False) else LO[f]
    return f


class BV:
    """A bit-vector; least significant bit first."""
    __slots__ = ("b", "c", "h")

    def __init__(self, bits):
        self.b = bits
        self.h = None
        c = 0
        for i, x in enumerate(bits):
            if x > 1:
                c = None
                break
            c |= x << i
        self.c = c

    @property
    def w(self):
        return len(self.b)

    def __eq__(self, o):
        return self is o or (type(o) is BV and self.b == o.b)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.b)
        return self.h

    def __repr__(self):
        if self.c is not None:
            return "%d:u%d" % (self.c, len(self.b))
        return "BV%d(%s)" % (len(self.b), describe_bits(self))


KCACHE = {}


def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    r = KCACHE.get(k)
    if r is None:
        r = KCACHE[k] = BV(tuple((v >> i) & 1 for i in range(w)))
    return r


def bool_bv(x):
    return BV((x,))


def ite_bv(g, a, b):
    if g == 1 or a is b:
        return a
    if g == 0:
        return b
    if a.b == b.b:
        return a
    return BV(tuple(ITE(g, x, y) for x, y in zip(a.b, b.b)))


def restrict_bv(a, c):
    if a.c is not None or c == 1:
        return a
    return BV(tuple(restrict(x, c) for x in a.b))


def add(a, b, cin=0):
    """Sum and carry out."""
    if a.c is not None and b.c is not None and cin < 2:
        t = a.c + b.c + cin
        return const(t, a.w), (t >> a.w) & 1
    out = []
    c = cin
    for x, y in zip(a.b, b.b):
        xy = XOR(x, y)
        out.append(XOR(xy, c))
        c = OR(AND(x, y), AND(c, xy))
    return BV(tuple(out)), c


def inv(a):
    return BV(tuple(NOT(x) for x in a.b))


def sub(a, b):
    """Difference and borrow (a < b, unsigned)."""
    s, c = add(a, inv(b), 1)
    return s, NOT(c)


def ult(a, b):
    if a.c is not None and b.c is not None:
        return 1 if a.c < b.c else 0
    r = 0
    for x, y in zip(a.b, b.b):
        r = ITE(XOR(x, y), y, r)
    return r


def slt(a, b):
    sa, sb = a.b[-1], b.b[-1]
    return ITE(XOR(sa, sb), sa, ult(a, b))


def eq(a, b):
    if a.b == b.b:
        return 1
    r = 1
    for x, y in zip(reversed(a.b), reversed(b.b)):
        r = AND(r, NOT(XOR(x, y)))
        if r == 0:
            return 0
    return r


def eqc(a, v):
    return eq(a, const(v, a.w))


def zext(a, w):
    if w <= a.w:
        return BV(a.b[:w]) if w < a.w else a
    return BV(a.b + (0,) * (w - a.w))


def sext(a, w):
    if w <= a.w:
        return BV(a.b[:w]) if w < a.w else a
    return BV(a.b + (a.b[-1],) * (w - a.w))


def bitop(f, a, b):
    return BV(tuple(f(x, y) for x, y in zip(a.b, b.b)))


def shl_c(a, n):
    w = a.w
    return BV(((0,) * n + a.b)[:w]) if n < w else const(0, w)


def lshr_c(a, n, fill=0):
    w = a.w
    return BV(a.b[n:] + (fill,) * min(n, w)) if n < w else BV((fill,) * w)


def shift(a, n, op):
    """op in shl, lshr, ashr; the amount is taken modulo the width."""
    w = a.w
    k = w.bit_length() - 1
    f = shl_c if op == "shl" else lshr_c
    fill = a.b[-1] if op == "ashr" else 0
    if n.c is not None:
        m = n.c % w
        return shl_c(a, m) if op == "shl" else lshr_c(a, m, fill)
    r = a
    for i in range(k):
        s = shl_c(r, 1 << i) if op == "shl" else lshr_c(r, 1 << i, fill)
        r = ite_bv(n.b[i], s, r)
    return r


def mul(a, b):
    """Product, and whether it overflows (unsigned)."""
    w = a.w
    if a.c is not None and b.c is not None:
        t = a.c * b.c
        return const(t, w), 1 if t >> w else 0
    if a.c is not None:
        a, b = b, a
    wide = zext(a, 2 * w)
    acc = const(0, 2 * w)
    for i, x in enumerate(b.b):
        if x == 0:
            continue
        t = shl_c(wide, i)
        s, _ = add(acc, t)
        acc = ite_bv(x, s, acc)
    ov = 0
    for x in acc.b[w:]:
        ov = OR(ov, x)
    return BV(acc.b[:w]), ov


def udivrem(a, b):
    w = a.w
    if a.c is not None and b.c is not None and b.c:
        return const(a.c // b.c, w), const(a.c % b.c, w)
    if b.c is not None and b.c and b.c & (b.c - 1) == 0:
        n = b.c.bit_length() - 1
        return lshr_c(a, n), BV(a.b[:n] + (0,) * (w - n))
    q = [0] * w
    r = const(0, w + 1)
    bx = zext(b, w + 1)
    for i in range(w - 1, -1, -1):
        r = BV((a.b[i],) + r.b[:w])
        d, borrow = sub(r, bx)
        ge = NOT(borrow)
        q[i] = ge
        r = ite_bv(ge, d, r)
    return BV(tuple(q)), BV(r.b[:w])


def cat(parts):
    """Concatenation, most significant part first."""
    out = ()
    for p in reversed(parts):
        out += p.b
    return BV(out)


def fresh(seq, w, name):
    """w fresh bits; bits of equal weight of different symbols sit next to each other."""
    return BV(tuple(var((i << 24) | seq, "%s[%d]" % (name, i)) for i in range(w)))


def bit_name(level):
    return NAMES.get(level, "v%d" % level)


def describe_bits(a):
    names = []
    for x in a.b:
        if x < 2:
            names.append(str(x))
        elif LO[x] == 0 and HI[x] == 1:
            names.append(bit_name(VAR[x]))
        else:
            names.append("f")
    return ",".join(reversed(names[:70]))


def reset():
    """Forget every diagram (values built before must not be used again)."""
    del VAR[2:], LO[2:], HI[2:]
    for d in (UNIQ, C_AND, C_XOR, C_ITE, C_RES, NAMES):
        d.clear()
