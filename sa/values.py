"""Abstract values and their join."""
from bdd import *


class Undecided(Exception):
    """The analysis has no sound, precise enough answer."""


class Agg:
    """Struct, tuple, closure or fixed-size array."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.v)) + "}"


class Uni(Agg):
    """A union: one slot whatever the field."""


class Bx(Agg):
    """A Box: its content, held by value."""


class Enum:
    """g[variant] is the (disjoint) condition under which the value is that variant."""
    __slots__ = ("g", "p")

    def __init__(self, g, p):
        self.g = g
        self.p = p

    def __repr__(self):
        return "Enum(" + ", ".join("%s%s:%r" % (k, "" if g == 1 else "?", self.p.get(k)) for k, g in self.g.items() if g) + ")"


class Ptr:
    """alts: (guard, object id, path, meta). meta: None, (start, len) for a slice, or ("dyn", ty)."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Ptr(%s)" % ", ".join("%s%s" % (a[1], list(a[2])) for a in self.alts)


class Seq:
    """A growable or unsized sequence: guarded alternatives of segment lists.

    Segments: ("L", items), ("S", source, start, len), ("R", value, len).
    ln overrides the length (Vec::set_len)."""
    __slots__ = ("alts", "ln", "_len", "elem")

    def __init__(self, alts, ln=None):
        self.alts = tuple(alts)
        self.ln = ln
        self._len = None

    def __repr__(self):
        return "Seq(%s)" % " | ".join("".join(map(seg_repr, s)) for g, s in self.alts)


def seg_repr(s):
    if s[0] == "L":
        return "[" + " ".join(map(repr, s[1])) + "]"
    if s[0] == "S":
        return "<%s+%r;%r>" % (s[1].name, s[2], s[3])
    return "<%r*%r>" % (s[1], s[2])


class Src:
    """An opaque array; the element at an index is a memoised opaque value."""
    def __init__(self, name, make):
        self.name = name
        self.make = make        # (index name) -> fresh element
        self.seen = []          # [(index BV, value, condition)]
        self.const = {}

    def __repr__(self):
        return "Src(%s)" % self.name


class SIter:
    """slice::Iter or IterMut: the slice that is left."""
    __slots__ = ("p", "e")

    def __init__(self, p, e=None):
        self.p = p
        self.e = e


class VIter:
    """vec::IntoIter: the items that are left."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Fn:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class Opq:
    """An opaque non-scalar: guarded alternatives of hashable terms."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Opq(%s)" % ", ".join(str(t) for g, t in self.alts)


class Bad:
    """No common abstraction; any use of it is undecided."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class FmtArg:
    __slots__ = ("kind", "ptr", "ty")

    def __init__(self, kind, ptr, ty):
        self.kind, self.ptr, self.ty = kind, ptr, ty


class FmtArgs:
    """Literal pieces (Seq) and FmtArg in order."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class Mac:
    """A keyed or plain running digest: algorithm, key, message so far."""
    __slots__ = ("alg", "key", "msg")

    def __init__(self, alg, key, msg):
        self.alg, self.key, self.msg = alg, key, msg


class UndefT:
    def __repr__(self):
        return "undef"


UNDEF = UndefT()
UNIT = Agg(())
U64 = 64


def k64(v):
    return const(v, 64)


def opq(t):
    return Opq(((1, t),))


def merge(g, a, b):
    """a where g holds, b elsewhere."""
    if a is b or g == 1:
        return a
    if g == 0:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    ta, tb = type(a), type(b)
    if ta is BV and tb is BV:
        return ite_bv(g, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        n = max(len(a.v), len(b.v))
        av = a.v + (UNDEF,) * (n - len(a.v))
        bv = b.v + (UNDEF,) * (n - len(b.v))
        out = tuple(merge(g, x, y) for x, y in zip(av, bv))
        if all(x is y for x, y in zip(out, av)):
            return a
        return ta(out)
    if ta is Enum and tb is Enum:
        gs = {}
        ps = {}
        for k in set(a.g) | set(b.g):
            x = ITE(g, a.g.get(k, 0), b.g.get(k, 0))
            if x == 0:
                continue
            gs[k] = x
            pa = a.p.get(k) if a.g.get(k, 0) else None
            pb = b.p.get(k) if b.g.get(k, 0) else None
            if pa is None:
                ps[k] = pb
            elif pb is None:
                ps[k] = pa
            else:
                # Only the part of g on which both are this variant distinguishes the payloads.
                n = max(len(pa), len(pb))
                pa = pa + (UNDEF,) * (n - len(pa))
                pb = pb + (UNDEF,) * (n - len(pb))
                gg = restrict(g, x)
                ps[k] = tuple(merge(gg, p, q) for p, q in zip(pa, pb))
        return Enum(gs, ps)
    if ta is Ptr and tb is Ptr:
        out = []
        bl = [list(x) for x in b.alts]
        used = set()
        for (ga, oa, pa, ma) in a.alts:
            ng = AND(g, ga)
            for i, (gb, ob, pb, mb) in enumerate(bl):
                if i not in used and oa == ob and pa == pb and (ma is None) == (mb is None):
                    if ma is not None and ma != mb:
                        if ma[0] == "dyn" or mb[0] == "dyn":
                            continue
                        nm = (ite_bv(g, ma[0], mb[0]), ite_bv(g, ma[1], mb[1]))
                    else:
                        nm = ma
                    used.add(i)
                    out.append((OR(ng, AND(NOT(g), gb)), oa, pa, nm))
                    break
            else:
                if ng:
                    out.append((ng, oa, pa, ma))
        for i, (gb, ob, pb, mb) in enumerate(bl):
            if i not in used:
                ng = AND(NOT(g), gb)
                if ng:
                    out.append((ng, ob, pb, mb))
        return Ptr(out)
    if ta is Seq and tb is Seq:
        return merge_seq(g, a, b)
    if ta is SIter and tb is SIter:
        return SIter(merge(g, a.p, b.p), a.e)
    if ta is VIter and tb is VIter:
        return VIter(merge(g, a.s, b.s))
    if ta is Mac and tb is Mac and a.alg == b.alg and (a.key is None) == (b.key is None):
        return Mac(a.alg, merge(g, a.key, b.key) if a.key is not None else None, merge(g, a.msg, b.msg))
    if ta is Fn and tb is Fn and a.inst == b.inst:
        return a
    if ta is Opq and tb is Opq:
        out = {}
        for gg, t in a.alts:
            out[t] = OR(out.get(t, 0), AND(g, gg))
        for gg, t in b.alts:
            out[t] = OR(out.get(t, 0), AND(NOT(g), gg))
        return Opq(tuple((x, t) for t, x in out.items() if x))
    if ta is Opq or tb is Opq:
        # An opaque stand-in joined with a structured value: keep it opaque.
        ga = [(AND(g, x), t) for x, t in a.alts] if ta is Opq else [(g, ("val", id(a)))]
        gb = [(AND(NOT(g), x), t) for x, t in b.alts] if tb is Opq else [(NOT(g), ("val", id(b)))]
        return Opq(tuple(x for x in ga + gb if x[0]))
    return Bad("join of %s and %s" % (ta.__name__, tb.__name__))


def seg_len(s):
    if s[0] == "L":
        return k64(len(s[1]))
    return s[3] if s[0] == "S" else s[2]


def same_items(x, y):
    return x is y or (type(x) is BV and x == y)


def segs_same(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "L":
            if len(x[1]) != len(y[1]) or not all(same_items(p, q) for p, q in zip(x[1], y[1])):
                return False
        elif x[0] == "S":
            if x[1] is not y[1] or x[2] != y[2] or x[3] != y[3]:
                return False
        elif not same_items(x[1], y[1]) or x[2] != y[2]:
            return False
    return True


def seq_const_items(s):
    """The items, if the sequence is one literal list."""
    if len(s.alts) == 1:
        segs = s.alts[0][1]
        if not segs:
            return ()
        if len(segs) == 1 and segs[0][0] == "L":
            return segs[0][1]
    return None


def merge_seq(g, a, b):
    ln = None
    if a.ln is not None or b.ln is not None:
        ln = ite_bv(g, seq_len(a), seq_len(b))
    ia, ib = seq_const_items(a), seq_const_items(b)
    if ia is not None and ib is not None and len(ia) == len(ib):
        return Seq(((1, (("L", tuple(merge(g, x, y) for x, y in zip(ia, ib))),) if ia else ()),), ln)
    if len(a.alts) == 1 and len(b.alts) == 1:
        # The same shape over the same sources: join the bounds and the items.
        sa, sb = a.alts[0][1], b.alts[0][1]
        if len(sa) == len(sb) and all(x[0] == y[0] and (x[0] != "S" or x[1] is y[1]) and (x[0] != "L" or len(x[1]) == len(y[1]))
                                      for x, y in zip(sa, sb)):
            out = []
            for x, y in zip(sa, sb):
                if x[0] == "L":
                    out.append(("L", tuple(merge(g, p, q) for p, q in zip(x[1], y[1]))))
                elif x[0] == "S":
                    out.append(("S", x[1], ite_bv(g, x[2], y[2]), ite_bv(g, x[3], y[3])))
                else:
                    out.append(("R", merge(g, x[1], y[1]), ite_bv(g, x[2], y[2])))
            return Seq(((1, tuple(out)),), ln)
    out = [[AND(g, ga), sa] for ga, sa in a.alts]
    for gb, sb in b.alts:
        ng = AND(NOT(g), gb)
        for e in out:
            if segs_same(e[1], sb):
                e[0] = OR(e[0], ng)
                break
        else:
            out.append([ng, sb])
    return Seq(tuple((x, s) for x, s in out if x), ln)


def seq_full_len(s):
    if s._len is None:
        r = None
        for g, segs in s.alts:
            t = k64(0)
            for x in segs:
                t, _ = add(t, seg_len(x))
            r = t if r is None else ite_bv(g, t, r)
        s._len = r if r is not None else k64(0)
    return s._len


def seq_len(s):
    return s.ln if s.ln is not None else seq_full_len(s)


def seq_of(items):
    return Seq(((1, (("L", tuple(items)),) if items else ()),))


MAX_INDEXES = 16


def index_values(idx, pc):
    """The values an index can have under pc, where they are few."""
    free = [i for i, b in enumerate(idx.b) if b > 1]
    if len(free) > 5:
        return None
    base = sum(1 << i for i, b in enumerate(idx.b) if b == 1)
    out = []
    for m in range(1 << len(free)):
        v = base + sum(1 << free[j] for j in range(len(free)) if m >> j & 1)
        c = AND(eqc(idx, v), pc)
        if c:
            out.append(v)
            if len(out) > MAX_INDEXES:
                return None
    return out


def src_get(src, idx, pc=1):
    """The element of an opaque array at an index; equal indices give the same element.

    src.seen has (index, value, condition under which the index was simplified and so is valid)."""
    if idx.c is None and pc != 1:
        idx = restrict_bv(idx, pc)
    if idx.c is not None:
        r = src.const.get(idx.c)
        if r is not None:
            return r
        v = src.make("%s[%s]" % (src.name, idx.c))
        for i, u, p in src.seen:
            if i.c is None:
                e = AND(eq(i, idx), p)
                if e != 0:
                    v = merge(e, u, v)
        src.seen.append((idx, v, 1))
        src.const[idx.c] = v
        return v
    few = index_values(idx, pc)
    if few:
        r = UNDEF
        for c in few:
            v = src_get(src, k64(c))
            r = v if r is UNDEF else merge(eqc(idx, c), v, r)
        return r
    for i, v, p in src.seen:
        if i.c is None and (i == idx or AND(pc, NOT(eq(i, idx))) == 0) and AND(pc, NOT(p)) == 0:
            return v
    v = src.make("%s[#%d]" % (src.name, len(src.seen)))
    # Possible aliasing with elements already taken.
    for i, u, p in src.seen:
        e = AND(eq(i, idx), p)
        if e != 0 and AND(e, pc) != 0:
            v = merge(e, u, v)
    src.seen.append((idx, v, pc))
    return v


def seq_get(s, idx, pc=1):
    r = UNDEF
    for g, segs in s.alts:
        if AND(g, pc) == 0:
            continue
        v = segs_get(segs, idx, AND(g, pc))
        if v is UNDEF:
            continue
        r = v if r is UNDEF else merge(g, v, r)
    return r


def segs_get(segs, idx, pc):
    """Element of a segment list."""
    at = k64(0)
    parts = []
    for s in segs:
        n = seg_len(s)
        end, _ = add(at, n)
        inside = AND(ult(idx, end), NOT(ult(idx, at)))
        if AND(inside, pc) != 0:
            off, _ = sub(idx, at)
            off = restrict_bv(off, AND(inside, pc)) if off.c is None else off
            if s[0] == "L":
                if off.c is not None and off.c < len(s[1]):
                    v = s[1][off.c]
                else:
                    v = UNDEF
                    for i, it in enumerate(s[1]):
                        c = eqc(off, i)
                        if AND(c, AND(inside, pc)) != 0:
                            v = it if v is UNDEF else merge(c, it, v)
            elif s[0] == "S":
                j, _ = add(s[2], off)
                v = src_get(s[1], j, AND(inside, pc))
            else:
                v = s[1]
            parts.append((inside, v))
            if implies(pc, inside):
                break
        at = end
    r = UNDEF
    for g, v in reversed(parts):
        r = v if r is UNDEF else merge(g, v, r)
    return r


def norm_segs(segs, pc):
    out = []
    for s in segs:
        n = seg_len(s)
        if n.c is None:
            n2 = restrict_bv(n, pc)
            if n2.c is not None:
                n = n2
        if n.c == 0:
            continue
        if s[0] == "S":
            s = ("S", s[1], s[2], n)
        elif s[0] == "R":
            s = ("R", s[1], n)
        if out:
            p = out[-1]
            if p[0] == "L" and s[0] == "L":
                out[-1] = ("L", p[1] + s[1])
                continue
            if p[0] == "S" and s[0] == "S" and p[1] is s[1]:
                e, _ = add(p[2], p[3])
                if e == s[2] or implies(pc, eq(e, s[2])):
                    t, _ = add(p[3], s[3])
                    out[-1] = ("S", p[1], p[2], t)
                    continue
            if p[0] == "R" and s[0] == "R" and same_items(p[1], s[1]):
                t, _ = add(p[2], s[2])
                out[-1] = ("R", p[1], t)
                continue
        out.append(s)
    return tuple(out)


def split_segs(segs, at, pc):
    """All ways of cutting at position `at` under pc: [(guard, left, right)]."""
    if at.c == 0:
        return [(1, (), tuple(segs))]
    res = []
    pos = k64(0)
    left = []
    rest = pc
    for i, s in enumerate(segs):
        n = seg_len(s)
        end, _ = add(pos, n)
        here = AND(rest, eq(at, pos))
        if here:
            res.append((eq(at, pos), tuple(left), tuple(segs[i:])))
            rest = AND(rest, NOT(here))
            if rest == 0:
                return res
        inside = AND(ult(pos, at), ult(at, end))
        here = AND(rest, inside)
        if here:
            k, _ = sub(at, pos)
            k = restrict_bv(k, here)
            if s[0] == "L":
                for j in range(1, len(s[1])):
                    c = eqc(k, j)
                    if AND(c, here):
                        res.append((AND(inside, c), tuple(left) + (("L", s[1][:j]),), (("L", s[1][j:]),) + tuple(segs[i + 1:])))
            elif s[0] == "S":
                s2, _ = add(s[2], k)
                n2, _ = sub(n, k)
                res.append((inside, tuple(left) + (("S", s[1], s[2], k),), (("S", s[1], s2, n2),) + tuple(segs[i + 1:])))
            else:
                n2, _ = sub(n, k)
                res.append((inside, tuple(left) + (("R", s[1], k),), (("R", s[1], n2),) + tuple(segs[i + 1:])))
            rest = AND(rest, NOT(here))
            if rest == 0:
                return res
        left.append(s)
        pos = end
    here = AND(rest, eq(at, pos))
    if here:
        res.append((eq(at, pos), tuple(segs), ()))
    return res


def seq_slice(s, start, ln, pc=1):
    """Sub-sequence [start, start + ln)."""
    out = []
    for g, segs in s.alts:
        p = AND(g, pc)
        if p == 0:
            continue
        for g1, _, right in split_segs(segs, start, p):
            p1 = AND(p, g1)
            if p1 == 0:
                continue
            for g2, mid, _ in split_segs(right, ln, p1):
                p2 = AND(p1, g2)
                if p2:
                    out.append((p2, norm_segs(mid, p2)))
    return mk_seq(out)


def mk_seq(alts):
    res = []
    for g, segs in alts:
        for e in res:
            if segs_same(e[1], segs):
                e[0] = OR(e[0], g)
                break
        else:
            res.append([g, segs])
    if len(res) == 1:
        return Seq(((1, res[0][1]),))
    return Seq(tuple((g, s) for g, s in res))


def seq_cat(a, b, pc=1):
    out = []
    for g, sa in a.alts:
        for h, sb in b.alts:
            p = AND(AND(g, h), pc)
            if p:
                out.append((AND(g, h), norm_segs(sa + sb, p)))
    return mk_seq(out)


def seq_write(s, start, new, pc=1):
    """Overwrite the items from `start` with the sequence `new`."""
    n = seq_len(new)
    out = []
    for g, segs in s.alts:
        p = AND(g, pc)
        if p == 0:
            out.append((g, segs))
            continue
        for g1, left, right in split_segs(segs, start, p):
            p1 = AND(p, g1)
            if p1 == 0:
                continue
            for g2, _, tail in split_segs(right, n, p1):
                p2 = AND(p1, g2)
                if p2 == 0:
                    continue
                for h, ns in new.alts:
                    p3 = AND(p2, h)
                    if p3:
                        out.append((p3, norm_segs(left + ns + tail, p3)))
    return Seq(mk_seq(out).alts, s.ln)


def seq_eq(a, b, pc):
    """Is the content of both provably the same under pc?"""
    for g, sa in a.alts:
        for h, sb in b.alts:
            p = AND(AND(g, h), pc)
            if p and not segs_eq(sa, sb, p):
                return False
    return True


def segs_eq(sa, sb, pc):
    sa, sb = list(norm_segs(sa, pc)), list(norm_segs(sb, pc))
    if segs_same(sa, sb):
        return True
    while sa and sb:
        x, y = sa[0], sb[0]
        nx, ny = seg_len(x), seg_len(y)
        if differ_at_once(x, y, pc):
            return False
        lt, gt = AND(pc, ult(nx, ny)), AND(pc, ult(ny, nx))
        if lt and gt:
            # Which one ends first depends on the input: decide each case.
            return segs_eq(sa, sb, lt) and segs_eq(sa, sb, AND(pc, NOT(lt)))
        if lt and lt != pc:
            return segs_eq(sa, sb, lt) and segs_eq(sa, sb, AND(pc, NOT(lt)))
        if gt and gt != pc:
            return segs_eq(sa, sb, gt) and segs_eq(sa, sb, AND(pc, NOT(gt)))
        if lt:
            n = nx
        else:
            n = ny
        n = restrict_bv(n, pc)
        px, rx = cut(x, n, pc)
        py, ry = cut(y, n, pc)
        if not seg_same(px, py, n, pc):
            return False
        sa = ([rx] if rx else []) + sa[1:]
        sb = ([ry] if ry else []) + sb[1:]
        sa, sb = list(norm_segs(sa, pc)), list(norm_segs(sb, pc))
    for s in sa + sb:
        if not implies(pc, eqc(seg_len(s), 0)):
            return False
    return True


def differ_at_once(x, y, pc):
    """Both begin with items of different inputs in some case."""
    return x[0] == "S" and y[0] == "S" and x[1] is not y[1] and AND(AND(pc, NOT(eqc(seg_len(x), 0))), NOT(eqc(seg_len(y), 0))) != 0


def cut(s, n, pc):
    ln = seg_len(s)
    if implies(pc, eq(ln, n)):
        return s, None
    if s[0] == "L":
        if n.c is None:
            raise Undecided("comparison of a literal list cut at an unknown place")
        return ("L", s[1][:n.c]), ("L", s[1][n.c:])
    d, _ = sub(ln, n)
    if s[0] == "S":
        e, _ = add(s[2], n)
        return ("S", s[1], s[2], n), ("S", s[1], e, d)
    return ("R", s[1], n), ("R", s[1], d)


def seg_same(x, y, n, pc):
    if n.c is not None and (x[0] == "L" or y[0] == "L"):
        for i in range(n.c):
            if not val_eq(seg_item(x, i, pc), seg_item(y, i, pc), pc):
                return False
        return True
    if x[0] == "S" and y[0] == "S":
        return x[1] is y[1] and implies(pc, eq(x[2], y[2]))
    if x[0] == "R" and y[0] == "R":
        return val_eq(x[1], y[1], pc)
    if x[0] == "L" or y[0] == "L":
        lit = x if x[0] == "L" else y
        oth = y if x[0] == "L" else x
        for i in range(len(lit[1])):
            p = AND(pc, ult(k64(i), n))
            if p and not val_eq(lit[1][i], seg_item(oth, i, p), p):
                return False
        return True
    return False


def seg_item(s, i, pc):
    if s[0] == "L":
        return s[1][i]
    if s[0] == "S":
        j, _ = add(s[2], k64(i))
        return src_get(s[1], j, pc)
    return s[1]


def bits_eq(a, b):
    """Condition for equality, bit by bit in index order."""
    return eq(a, b)


def val_eq(a, b, pc):
    """Provably the same value under pc."""
    if a is b:
        return True
    if type(a) is BV and type(b) is BV:
        if a == b:
            return True
        if a.w != b.w:
            return False
        for x, y in zip(a.b, b.b):
            if x != y and AND(pc, XOR(x, y)) != 0:
                return False
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.v) == len(b.v) and all(val_eq(x, y, pc) for x, y in zip(a.v, b.v))
    if type(a) is Enum and type(b) is Enum:
        for k in set(a.g) | set(b.g):
            x, y = a.g.get(k, 0), b.g.get(k, 0)
            if AND(pc, XOR(x, y)) != 0:
                return False
            p = AND(pc, AND(x, y))
            if p:
                pa, pb = a.p.get(k) or (), b.p.get(k) or ()
                if len(pa) != len(pb) or not all(val_eq(u, v, p) for u, v in zip(pa, pb)):
                    return False
        return True
    if type(a) is Seq and type(b) is Seq:
        if not implies(pc, eq(seq_len(a), seq_len(b))):
            return False
        return seq_eq(a, b, pc)
    if type(a) is Opq and type(b) is Opq:
        for g, t in a.alts:
            for h, u in b.alts:
                if t != u and AND(AND(g, h), pc):
                    return False
        return True
    if type(a) is VIter and type(b) is VIter:
        return val_eq(a.s, b.s, pc)
    if type(a) is Ptr and type(b) is Ptr:
        return a.alts == b.alts
    return False
