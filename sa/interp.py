"""Abstract interpreter of monomorphic MIR.

One abstract state per program point: states that reach the same block are joined (no path is followed
on its own), loops are iterated until the abstract loop condition is false, calls are analysed in the
caller's context. Conditions are decision diagrams over the input bits.
"""
import heapq
import re
from bdd import *
from values import *
import mir


class State:
    __slots__ = ("pc", "top", "chain")

    def __init__(self, pc, top, chain):
        self.pc = pc
        self.top = top
        self.chain = chain

    def fork(self, pc):
        return State(pc, dict(self.top), self.chain)

    def get(self, oid):
        v = self.top.get(oid)
        if v is not None:
            return v
        for d in reversed(self.chain):
            v = d.get(oid)
            if v is not None:
                return v
        return UNDEF

    def set(self, oid, v):
        self.top[oid] = v


def merge_states(a, b):
    """Join of two states of one function activation."""
    pc = OR(a.pc, b.pc)
    g = restrict(b.pc, pc)
    top = a.top
    out = dict(top)
    for k, v in b.top.items():
        u = top.get(k)
        if u is v:
            continue
        if u is None:
            u = a.get(k)
            if u is UNDEF:
                out[k] = v
                continue
        out[k] = merge(g, v, u)
    for k, u in top.items():
        if k not in b.top:
            v = b.get(k)
            if v is not UNDEF and v is not u:
                out[k] = merge(g, v, u)
    return State(pc, out, a.chain)


class Panic:
    def __init__(self, kind, where, guard, stack):
        self.kind = kind
        self.where = where
        self.guard = guard
        self.stack = stack


class Interp:
    def __init__(self, prog, loop_limit=300):
        self.P = prog
        self.seq = 0
        self.oid = 0
        self.opaque = {}
        self.models = {}
        self.loop_limit = loop_limit
        self.panics = []
        self.calls = {}
        self.stack = []
        self.const_cache = {}
        self.static_objs = {}
        self.base = {}          # objects that exist outside any frame
        self.havocs = {}
        self.visited = set()
        self.call_log = None
        self.hook = None
        self.steps = 0
        self.ub = []
        self.on_drop = None
        self.allocs_log = None
        self.edges = None
        self.axioms = 1
        self.unknown = []
        self.utf8_srcs = set()
        self.wide_eqs = []
        self.byte_ids = {}      # function -> ids of bits for its results, per application
        self.uniques = {t.j["variants"][0]["fields"][0][1]: t.j["args"][0] for t in prog.types if t.k == "adt" and t.j["def"] == "std::boxed::Box"}
        self.boxes = {t.id: t.j["variants"][0]["fields"][0][1] for t in prog.types if t.k == "adt" and t.j["def"] == "std::boxed::Box"}
        import models
        models.install(self)

    # ---- fresh bits and opaque terms

    def fresh(self, w, name):
        self.seq += 1
        return fresh(self.seq, w, name)

    def opq_bv(self, key, w, name=None):
        r = self.opaque.get(key)
        if r is None:
            r = self.fresh(w, name or str(key)[:60])
            self.opaque[key] = r
        return r

    def havoc(self, ty, why, st=None):
        self.havocs[why] = self.havocs.get(why, 0) + 1
        if st is not None:
            # Remember under which conditions something unknown entered.
            self.havoc_pc = OR(getattr(self, "havoc_pc", 0), st.pc)
        return self.sym(ty, "havoc:%s#%d" % (why, self.seq))

    def new_oid(self):
        self.oid += 1
        return self.oid

    # ---- symbolic values by type

    def sym(self, tid, name, opts=None):
        t = self.P.types[tid]
        k = t.k
        if k in ("bool", "int", "uint", "char"):
            if name.startswith("havoc") or (opts and opts.get("nomemo")):
                return self.fresh(t.bits, name)
            return self.opq_bv(("sym", name), t.bits, name)
        if k == "tuple":
            return Agg(self.sym(e, "%s.%d" % (name, i), opts) for i, e in enumerate(t.j["elems"]))
        if k == "array":
            n = t.j["len"]
            return Agg(self.sym(t.j["elem"], "%s[%d]" % (name, i), opts) for i in range(n))
        if k == "adt":
            d = t.j["def"]
            h = (opts or {}).get("types", {}).get(t.name)
            if h is not None:
                return h(self, tid, name, opts)
            if d.endswith("vec::Vec") or d == "std::vec::Vec":
                el = t.j["args"][0]
                src = self.src(name, el)
                ln = zext(self.opq_bv(("len", name), (opts or {}).get("lenbits", 17), "len(%s)" % name), 64)
                return Seq(((1, (("S", src, k64(0), ln),)),))
            if d.endswith("string::String"):
                src = self.src(name, self.P.ty_by_name["u8"].id)
                ln = zext(self.opq_bv(("len", name), (opts or {}).get("lenbits", 17), "len(%s)" % name), 64)
                self.utf8_srcs.add(name)
                return Seq(((1, (("S", src, k64(0), ln),)),))
            if d == "std::boxed::Box":
                return Bx((self.sym(t.j["args"][0], name, opts),))
            if d.endswith("::TrackableError"):
                fs = t.j["variants"][0]["fields"]
                return Agg(self.sym(f[1], name + "." + f[0], opts) if f[0] == "kind" else opq(("err", name, f[0])) for f in fs)
            vs = t.j["variants"]
            if t.j.get("adt_kind") == "Struct":
                return Agg(self.sym(f[1], name + "." + f[0], opts) for f in vs[0]["fields"])
            if t.j.get("adt_kind") == "Enum":
                gs = self.choice(len(vs), name)
                return Enum({i: g for i, g in enumerate(gs)},
                            {i: tuple(self.sym(f[1], "%s.%s.%s" % (name, v["name"], f[0]), opts) for f in v["fields"])
                             for i, v in enumerate(vs)})
            return opq(("sym", name))
        if k in ("fndef",):
            return Fn(t.j.get("inst"))
        return opq(("sym", name))


    def src(self, name, elem_ty):
        key = ("src", name)
        s = self.opaque.get(key)
        if s is None:
            s = Src(name, lambda nm: self.sym(elem_ty, nm))
            self.opaque[key] = s
        return s

    def choice(self, n, name):
        """n disjoint, exhaustive conditions on fresh bits."""
        if n == 1:
            return [1]
        w = max(1, (n - 1).bit_length())
        bits = self.opq_bv(("choice", name), w, "variant(%s)" % name)
        out = [eqc(bits, i) for i in range(n - 1)]
        rest = 1
        for g in out:
            rest = AND(rest, NOT(g))
        return out + [rest]

    # ---- constants

    def decode_const(self, tid, hexs, ptrs, off=0):
        t = self.P.types[tid]
        k = t.k
        if k in ("bool", "int", "uint", "char"):
            n = (t.bits + 7) // 8
            raw = hexs[2 * off:2 * (off + n)]
            if "_" in raw:
                return UNDEF
            return const(int.from_bytes(bytes.fromhex(raw), "little"), t.bits)
        if k in ("fndef", "never") or (k == "closure" and not t.j["upvars"]):
            return Fn(t.j.get("inst")) if k == "fndef" else UNIT
        if k == "tuple":
            o = (t.j.get("layout") or {}).get("offsets") or []
            return Agg(self.decode_const(e, hexs, ptrs, off + (o[i] if i < len(o) else 0)) for i, e in enumerate(t.j["elems"]))
        if k == "array":
            et = self.P.types[t.j["elem"]]
            es = self.size_of(t.j["elem"])
            return Agg(self.decode_const(t.j["elem"], hexs, ptrs, off + i * es) for i in range(t.j["len"]))
        if k in ("ref", "ptr"):
            return self.const_ptr(tid, hexs, ptrs, off)
        if k == "fnptr":
            for o, a in ptrs:
                if o == off and self.P.allocs[a]["k"] == "fn":
                    return Fn(self.P.allocs[a]["inst"])
            return UNDEF
        if k == "adt":
            d = t.j["def"]
            if d in ("std::vec::Vec", "std::string::String"):
                return Seq(((1, ()),))
            l = t.j.get("layout") or {}
            kind = t.j.get("adt_kind")
            if kind == "Struct":
                fs = t.j["variants"][0]["fields"]
                o = l.get("offsets") or [0] * len(fs)
                return Agg(self.decode_const(f[1], hexs, ptrs, off + o[i]) for i, f in enumerate(fs))
            if kind == "Union":
                return Uni((UNDEF,))
            return self.decode_enum(t, l, hexs, ptrs, off)
        return UNDEF

    def size_of(self, tid):
        t = self.P.types[tid]
        if t.k == "bool":
            return 1
        if t.bits:
            return t.bits // 8
        if t.k in ("ref", "ptr"):
            e = self.P.types[t.j["elem"]]
            return 16 if e.k in ("str", "slice", "dyn") else 8
        l = t.j.get("layout")
        if l:
            return l["size"]
        if t.k == "fndef":
            return 0
        if t.k == "fnptr":
            return 8
        raise Undecided("size of " + t.name)

    def decode_enum(self, t, l, hexs, ptrs, off):
        vs = t.j["variants"]
        if l.get("variants") == "empty" or not vs:
            return UNDEF
        if l.get("variants") == "single":
            i = l["single"]
            o = l.get("offsets") or [0] * len(vs[i]["fields"])
            return Enum({i: 1}, {i: tuple(self.decode_const(f[1], hexs, ptrs, off + o[j]) for j, f in enumerate(vs[i]["fields"]))})
        tagoff = (l.get("offsets") or [0])[l.get("tag_field", 0)]
        m = re.search(r"length: I(\d+)|Int \{ length: I(\d+)", l["tag"])
        n = 8
        m = re.search(r"I(8|16|32|64)", l["tag"])
        if m:
            n = int(m.group(1)) // 8
        raw = hexs[2 * (off + tagoff):2 * (off + tagoff + n)]
        isptr = any(o == off + tagoff for o, _ in ptrs)
        enc = l["tag_encoding"]
        if enc == "direct":
            if "_" in raw:
                return UNDEF
            v = int.from_bytes(bytes.fromhex(raw), "little")
            for i, x in enumerate(vs):
                if int(x["discr"]) & ((1 << (8 * n)) - 1) == v:
                    break
        else:
            if isptr or "_" in raw:
                i = enc["untagged"]
            else:
                v = int.from_bytes(bytes.fromhex(raw), "little")
                rel = (v - int(enc["start"])) % (1 << (8 * n))
                i = enc["lo"] + rel if rel <= enc["hi"] - enc["lo"] else enc["untagged"]
        o = l["variant_offsets"][i]
        return Enum({i: 1}, {i: tuple(self.decode_const(f[1], hexs, ptrs, off + o[j]) for j, f in enumerate(vs[i]["fields"]))})

    def const_ptr(self, tid, hexs, ptrs, off):
        t = self.P.types[tid]
        et = self.P.types[t.j["elem"]]
        target = None
        for o, a in ptrs:
            if o == off:
                target = a
        meta = None
        if et.k in ("str", "slice"):
            raw = hexs[2 * (off + 8):2 * (off + 16)]
            n = int.from_bytes(bytes.fromhex(raw), "little") if raw and "_" not in raw else 0
            meta = (k64(0), k64(n))
        if target is None:
            # A dangling pointer to something zero-sized.
            oid = ("zst", t.j["elem"])
            if oid not in self.base:
                if et.k in ("str", "slice"):
                    self.base[oid] = Seq(((1, ()),))
                else:
                    self.base[oid] = self.decode_const(t.j["elem"], "", [], 0)
            return Ptr(((1, oid, (), meta),))
        al = self.P.allocs[target]
        base = 0
        raw = hexs[2 * off:2 * off + 16]
        if "_" not in raw and raw:
            base = int.from_bytes(bytes.fromhex(raw), "little")
        oid = ("alloc", target, t.j["elem"], base, meta[1].c if meta else None)
        if oid not in self.base:
            if al["k"] == "mem":
                hx, ps = al["alloc"]["bytes"], al["alloc"]["ptrs"]
                if et.k == "str":
                    raw = bytes.fromhex(hx[2 * base:2 * (base + meta[1].c)])
                    self.base[oid] = seq_of(const(x, 8) for x in raw)
                elif et.k == "slice":
                    es = self.size_of(et.j["elem"])
                    self.base[oid] = seq_of(self.decode_const(et.j["elem"], hx, ps, base + i * es) for i in range(meta[1].c))
                elif et.k == "dyn":
                    self.base[oid] = opq(("const", target))
                else:
                    self.base[oid] = self.decode_const(t.j["elem"], hx, ps, base)
            elif al["k"] == "static":
                self.base[oid] = opq(("static", al["name"]))
            else:
                self.base[oid] = opq(("const", target))
        return Ptr(((1, oid, (), meta),))

    def const_val(self, c):
        k = id(c)
        r = self.const_cache.get(k)
        if r is None:
            if c["c"] == "alloc":
                a = c["alloc"]
                r = self.decode_const(c["ty"], a["bytes"], a["ptrs"])
            elif c["c"] == "zst":
                t = self.P.types[c["ty"]]
                r = self.decode_const(c["ty"], "", [])
                if r is UNDEF:
                    r = UNIT
            elif c["c"] == "usize":
                r = k64(int(c["v"]))
            else:
                r = UNDEF
            self.const_cache[k] = r
        return r

    # ---- memory

    def load_root(self, st, oid):
        v = st.get(oid)
        if v is UNDEF:
            v = self.base.get(oid, UNDEF)
        return v

    def read_path(self, v, path, pc):
        for i, e in enumerate(path):
            if v is UNDEF:
                return UNDEF
            k = e[0]
            if k == "f":
                if isinstance(v, Uni):
                    v = v.v[0]
                elif isinstance(v, Agg):
                    v = v.v[e[1]] if e[1] < len(v.v) else UNDEF
                elif type(v) is Enum:
                    # A field of the variant named before.
                    p = v.p.get(path[i - 1][1])
                    v = p[e[1]] if p is not None and e[1] < len(p) else UNDEF
                elif type(v) is Opq:
                    v = Opq(tuple((g, ("field", t, e[1])) for g, t in v.alts))
                elif type(v) in (Seq, Fn):
                    raise Undecided("field of a sequence")
                else:
                    raise Undecided("field of %r" % (v,))
            elif k == "v":
                pass
            elif k == "b":
                if type(v) is not Bx:
                    raise Undecided("%s used as a Box" % type(v).__name__)
                v = v.v[0]
            elif k == "i":
                v = self.index_val(v, e[1], pc)
            else:
                raise Undecided("path " + k)
        return v

    def index_val(self, v, idx, pc):
        if idx.c is None:
            idx = restrict_bv(idx, pc)
        if isinstance(v, Agg):
            if idx.c is not None:
                return v.v[idx.c] if idx.c < len(v.v) else UNDEF
            r = UNDEF
            for i, x in enumerate(v.v):
                c = eqc(idx, i)
                if AND(c, pc):
                    r = x if r is UNDEF else merge(c, x, r)
            return r
        if type(v) is Seq:
            return seq_get(v, idx, pc)
        raise Undecided("index of %s" % type(v).__name__)

    def write_path(self, v, path, new, g, pc):
        """v with the place at path replaced by new, where g holds."""
        if not path:
            return merge(g, new, v)
        e = path[0]
        k = e[0]
        if k == "v":
            if type(v) is not Enum:
                v = Enum({}, {})
            f = path[1]
            p = list(v.p.get(e[1]) or ())
            while len(p) <= f[1]:
                p.append(UNDEF)
            p[f[1]] = self.write_path(p[f[1]], path[2:], new, g, pc)
            ps = dict(v.p)
            ps[e[1]] = tuple(p)
            return Enum(v.g, ps)
        if k == "b":
            if type(v) is not Bx:
                raise Undecided("%s used as a Box" % type(v).__name__)
            return Bx((self.write_path(v.v[0], path[1:], new, g, pc),))
        if k == "f":
            if isinstance(v, Uni):
                return Uni((self.write_path(v.v[0], path[1:], new, g, pc),))
            if isinstance(v, Agg) or v is UNDEF:
                p = list(v.v) if v is not UNDEF else []
                while len(p) <= e[1]:
                    p.append(UNDEF)
                p[e[1]] = self.write_path(p[e[1]], path[1:], new, g, pc)
                return Agg(p)
            raise Undecided("write to a field of %s" % type(v).__name__)
        if k == "i":
            idx = e[1]
            if idx.c is None:
                idx = restrict_bv(idx, pc)
            if isinstance(v, Agg):
                p = list(v.v)
                if idx.c is not None:
                    if idx.c < len(p):
                        p[idx.c] = self.write_path(p[idx.c], path[1:], new, g, pc)
                else:
                    for i in range(len(p)):
                        c = AND(g, eqc(idx, i))
                        if AND(c, pc):
                            p[i] = self.write_path(p[i], path[1:], new, c, pc)
                return Agg(p)
            if type(v) is Seq:
                old = seq_get(v, idx, pc)
                val = self.write_path(old, path[1:], new, 1, pc)
                w = seq_write(v, idx, seq_of([val]), pc)
                return merge(g, w, v)
            raise Undecided("indexed write to %s" % type(v).__name__)
        raise Undecided("path")

    def deref_read(self, st, ptr, extra=()):
        if type(ptr) is not Ptr:
            raise Undecided("dereference of %r" % (ptr,))
        r = UNDEF
        for g, oid, path, meta in ptr.alts:
            p = AND(g, st.pc)
            if p == 0:
                continue
            v = self.read_path(self.load_root(st, oid), path + extra, p)
            if v is UNDEF:
                continue
            r = v if r is UNDEF else merge(restrict(g, st.pc), v, r)
        return r

    def deref_write(self, st, ptr, val, extra=()):
        for g, oid, path, meta in ptr.alts:
            p = AND(g, st.pc)
            if p == 0:
                continue
            gg = 1 if p == st.pc else restrict(g, st.pc)
            st.set(oid, self.write_path(self.load_root(st, oid), path + extra, val, gg, p))

    # slices

    def slice_parts(self, st, ptr):
        """[(guard, container value, start, len)] of a slice or str pointer."""
        out = []
        for g, oid, path, meta in ptr.alts:
            p = AND(g, st.pc)
            if p == 0:
                continue
            v = self.read_path(self.load_root(st, oid), path, p)
            out.append((g, v, meta[0], meta[1], oid, path))
        return out

    def slice_len(self, ptr):
        r = None
        for g, oid, path, meta in ptr.alts:
            r = meta[1] if r is None else ite_bv(g, meta[1], r)
        return r if r is not None else k64(0)

    def slice_seq(self, st, ptr):
        """The items a slice pointer covers, as a sequence."""
        out = None
        for g, v, s, n, oid, path in self.slice_parts(st, ptr):
            p = AND(g, st.pc)
            q = self.as_seq(v)
            r = seq_slice(q, restrict_bv(s, p), restrict_bv(n, p), p)
            out = r if out is None else merge(g, r, out)
        return out if out is not None else seq_of(())

    def as_seq(self, v):
        if type(v) is Seq:
            return Seq(v.alts)
        if isinstance(v, Agg):
            return seq_of(v.v)
        if v is UNDEF:
            return seq_of(())
        raise Undecided("%s is no sequence" % type(v).__name__)

    def slice_write(self, st, ptr, seq):
        """Store a sequence (of the slice's length) through a slice pointer."""
        for g, v, s, n, oid, path in self.slice_parts(st, ptr):
            p = AND(g, st.pc)
            s = restrict_bv(s, p)
            if isinstance(v, Agg):
                items = list(v.v)
                nn = restrict_bv(seq_len(seq), p)
                for i in range(len(items)):
                    off, _ = sub(k64(i), s)
                    c = AND(NOT(ult(k64(i), s)), ult(off, nn))
                    if AND(c, p):
                        x = seq_get(seq, restrict_bv(off, AND(c, p)), AND(c, p))
                        items[i] = merge(restrict(c, p) if AND(c, p) != p else 1, x, items[i])
                new = Agg(items)
            else:
                new = seq_write(v, s, seq, p)
            gg = 1 if p == st.pc else restrict(g, st.pc)
            st.set(oid, self.write_path(self.load_root(st, oid), path, new, gg, p))

    # ---- places and operands

    def place_ptr(self, st, fr, place):
        """The place as a pointer."""
        alts = ((1, fr[place[0]], (), None),)
        for e in place[1:]:
            k = e[0]
            if k == "*":
                out = []
                for g, oid, path, meta in alts:
                    p = AND(g, st.pc)
                    if p == 0:
                        continue
                    v = self.read_path(self.load_root(st, oid), path, p)
                    if type(v) is Opq:
                        # A pointer to something opaque.
                        nid = ("opq", v.alts)
                        self.base.setdefault(nid, v)
                        out.append((g, nid, (), None))
                        continue
                    if type(v) is Bx:
                        m = (k64(0), seq_len(v.v[0])) if type(v.v[0]) is Seq else None
                        out.append((g, oid, path + (("b",),), m))
                        continue
                    if type(v) is not Ptr:
                        raise Undecided("dereference of %r in %s" % (type(v).__name__, self.stack[-1].name))
                    for h, o2, p2, m2 in v.alts:
                        q = AND(g, h)
                        if AND(q, st.pc):
                            out.append((q, o2, p2, m2))
                alts = tuple(out)
            elif k == "f":
                alts = tuple((g, o, p + (("f", e[1]),), None) for g, o, p, m in alts)
            elif k == "d":
                alts = tuple((g, o, p + (("v", e[1]),), None) for g, o, p, m in alts)
            elif k == "i":
                idx = self.load_root(st, fr[e[1]])
                alts = tuple((g, o, p + (("i", idx if m is None else add(m[0], idx)[0]),), None) for g, o, p, m in alts)
            elif k == "ci":
                out = []
                for g, o, p, m in alts:
                    ln = m[1] if m is not None else k64(len(self.read_path(self.load_root(st, o), p, st.pc).v))
                    j = sub(ln, k64(e[1]))[0] if e[3] else k64(e[1])
                    out.append((g, o, p + (("i", j if m is None else add(m[0], j)[0]),), None))
                alts = tuple(out)
            elif k == "ss":
                out = []
                for g, o, p, m in alts:
                    if m is None:
                        m = (k64(0), k64(len(self.read_path(self.load_root(st, o), p, st.pc).v)))
                    s = add(m[0], k64(e[1]))[0]
                    n = sub(sub(m[1], k64(e[2]))[0], k64(e[1]))[0] if e[3] else k64(e[2] - e[1])
                    out.append((g, o, p, (s, n)))
                alts = tuple(out)
            else:
                raise Undecided("projection " + k)
        return Ptr(alts)

    def read_place(self, st, fr, place):
        if len(place) == 1:
            return self.load_root(st, fr[place[0]])
        ok = True
        for j, e in enumerate(place[1:]):
            if e[0] == "f" and e[2] in self.uniques:
                return self.box_ptr(st, self.place_ptr(st, fr, place[:j + 1]), e[2])
            if e[0] not in ("f", "d"):
                ok = False
                break
        if ok:
            path = tuple(("f", e[1]) if e[0] == "f" else ("v", e[1]) for e in place[1:])
            return self.read_path(self.load_root(st, fr[place[0]]), path, st.pc)
        p = self.place_ptr(st, fr, place)
        if p.alts and p.alts[0][3] is not None and p.alts[0][3][0] != "dyn":
            return self.slice_seq(st, p)
        return self.deref_read(st, p)

    def box_ptr(self, st, p, uid):
        """Pointer to the content of the Box behind p."""
        t = self.P.types[self.uniques[uid]]
        out = []
        for g, o, path, m in p.alts:
            q = AND(g, st.pc)
            if q == 0:
                continue
            v = self.read_path(self.load_root(st, o), path, q)
            if type(v) is Ptr:
                # Already a pointer to the content.
                for h, o2, p2, m2 in v.alts:
                    if AND(q, h):
                        out.append((AND(g, h), o2, p2, m2))
                continue
            m = None
            if t.k in ("slice", "str"):
                m = (k64(0), seq_len(self.as_seq(self.read_path(self.load_root(st, o), path + (("b",),), q))))
            elif t.k == "dyn":
                raise Undecided("Box of a trait object")
            out.append((g, o, path + (("b",),), m))
        return Ptr(out)

    def write_place(self, st, fr, place, val):
        if len(place) == 1:
            st.set(fr[place[0]], val)
            return
        p = self.place_ptr(st, fr, place)
        self.deref_write(st, p, val)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "const":
            return self.const_val(o[1])
        if k in ("copy", "move"):
            return self.read_place(st, fr, o[1])
        if k == "rt":
            return const(0, 1)
        raise Undecided("operand " + k)

    # ---- rvalues

    def discr_bv(self, v, vty, dty):
        t = self.P.types[vty] if vty is not None else None
        w = self.P.types[dty].bits if dty is not None else 64
        if type(v) is not Enum:
            if v is UNDEF:
                l = (t.j.get("layout") or {}) if t is not None else {}
                if l.get("variants") == "single" and t.j["variants"]:
                    # Only one variant can exist: the type alone says which.
                    return const(int(t.j["variants"][l["single"]]["discr"]), w)
                return UNDEF
            raise Undecided("discriminant of %s" % type(v).__name__)
        r = None
        for i, g in v.g.items():
            d = const(int(t.j["variants"][i]["discr"]), w) if t is not None else const(i, w)
            r = d if r is None else ite_bv(g, d, r)
        return r if r is not None else UNDEF

    def local_ty(self, body, place):
        """Type id of a place."""
        t = body["locals"][place[0]]
        for e in place[1:]:
            k = e[0]
            if k == "f":
                t = e[2]
            elif k == "*":
                t = self.P.types[t].j.get("elem")
            elif k in ("i", "ci"):
                t = self.P.types[t].j.get("elem")
        return t

    def binop(self, op, a, b, signed, checked=False):
        if type(a) is not BV or type(b) is not BV:
            if op in ("Eq", "Ne") and a is b:
                return const(1 if op == "Eq" else 0, 1)
            if op == "Offset" and type(a) is Ptr and type(b) is BV:
                out = []
                for g, o, path, m in a.alts:
                    if not path or path[-1][0] != "i":
                        raise Undecided("pointer arithmetic")
                    out.append((g, o, path[:-1] + (("i", add(path[-1][1], b)[0]),), None))
                return Ptr(out)
            raise Undecided("%s on %s and %s" % (op, type(a).__name__, type(b).__name__))
        if op == "BitAnd":
            return bitop(AND, a, b)
        if op == "BitOr":
            return bitop(OR, a, b)
        if op == "BitXor":
            return bitop(XOR, a, b)
        if op == "Eq":
            return bool_bv(eq(a, b))
        if op == "Ne":
            return bool_bv(NOT(eq(a, b)))
        lt = slt if signed else ult
        if op == "Lt":
            return bool_bv(lt(a, b))
        if op == "Ge":
            return bool_bv(NOT(lt(a, b)))
        if op == "Gt":
            return bool_bv(lt(b, a))
        if op == "Le":
            return bool_bv(NOT(lt(b, a)))
        if op == "Cmp":
            l, e = lt(a, b), eq(a, b)
            return Enum({0: l, 1: e, 2: NOT(OR(l, e))}, {0: (), 1: (), 2: ()})
        if op in ("Shl", "ShlUnchecked"):
            return shift(a, b, "shl")
        if op in ("Shr", "ShrUnchecked"):
            return shift(a, b, "ashr" if signed else "lshr")
        if op in ("Add", "AddUnchecked"):
            r, c = add(a, b)
            if not checked:
                return r
            if signed:
                sa, sb, sr = a.b[-1], b.b[-1], r.b[-1]
                c = AND(NOT(XOR(sa, sb)), XOR(sa, sr))
            return Agg((r, bool_bv(c)))
        if op in ("Sub", "SubUnchecked"):
            r, c = sub(a, b)
            if not checked:
                return r
            if signed:
                sa, sb, sr = a.b[-1], b.b[-1], r.b[-1]
                c = AND(XOR(sa, sb), XOR(sa, sr))
            return Agg((r, bool_bv(c)))
        if op in ("Mul", "MulUnchecked"):
            if signed:
                if a.c is None or b.c is None:
                    raise Undecided("signed multiplication")
            r, c = mul(a, b)
            return Agg((r, bool_bv(c))) if checked else r
        if op in ("Div", "Rem"):
            if signed and not (a.b[-1] == 0 and b.b[-1] == 0):
                raise Undecided("signed division")
            q, r = udivrem(a, b)
            return q if op == "Div" else r
        raise Undecided("operator " + op)

    def cast(self, st, kind, v, frm, to):
        tt = self.P.types[to]
        ft = self.P.types[frm] if frm is not None else None
        if kind.startswith("IntToInt") or kind in ("PointerExposeAddress",):
            if type(v) is not BV:
                return v
            return sext(v, tt.bits) if ft is not None and ft.signed else zext(v, tt.bits)
        if "Unsize" in kind:
            if type(v) is Bx:
                ta, fa = self.P.types[tt.j["args"][0]], self.P.types[ft.j["args"][0]]
                if ta.k == "slice" and fa.k == "array":
                    return Bx((self.as_seq(v.v[0]),))
                raise Undecided("unsizing of a Box")
            if type(v) is Ptr:
                te = self.P.types[tt.j["elem"]] if "elem" in tt.j else None
                if te is not None and te.k == "slice":
                    fe = self.P.types[ft.j["elem"]]
                    if fe.k == "array":
                        return Ptr(tuple((g, o, p, (k64(0), k64(fe.j["len"]))) for g, o, p, m in v.alts))
                if te is not None and te.k == "dyn":
                    return Ptr(tuple((g, o, p, ("dyn", ft.j["elem"])) for g, o, p, m in v.alts))
            return v
        if "Transmute" in kind:
            return self.transmute(v, frm, to)
        if kind.startswith("PtrToPtr"):
            te = self.P.types[tt.j["elem"]]
            if type(v) is Ptr and te.k not in ("slice", "str", "dyn"):
                out = []
                for g, o, p, m in v.alts:
                    if m is not None and m[0] != "dyn":
                        p = p + (("i", m[0]),)
                        m = None
                    out.append((g, o, p, None))
                return Ptr(out)
            return v
        return v

    def transmute(self, v, frm, to):
        ft, tt = self.P.types[frm], self.P.types[to]
        if ft.bits and tt.bits:
            return zext(v, tt.bits)
        if type(v) is BV and tt.k == "array" and self.P.types[tt.j["elem"]].bits == 8:
            return Agg(BV(v.b[8 * i:8 * i + 8]) for i in range(v.w // 8))
        if isinstance(v, Agg) and tt.bits and ft.k == "array" and self.P.types[ft.j["elem"]].bits == 8:
            return BV(sum((x.b for x in v.v), ()))
        if tt.k in ("ref", "ptr") and (ft.k in ("ref", "ptr") or type(v) is Ptr):
            return v
        if ft.k == "array" and tt.k == "array" and ft.j["len"] == tt.j["len"] and isinstance(v, Agg) and self.size_of(ft.j["elem"]) == self.size_of(tt.j["elem"]):
            return Agg(self.transmute(x, ft.j["elem"], tt.j["elem"]) if x is not UNDEF else x for x in v.v)
        if ft.k == "adt" and ft.j["def"] == "std::mem::MaybeUninit" and (isinstance(v, Uni) or type(v) is BV):
            x = v
            while isinstance(x, Agg) and len(x.v) == 1 and not (tt.k in ("array", "tuple") or tt.k == "adt" and type(x) is not Uni and tt.j["def"] != "std::mem::ManuallyDrop"):
                x = x.v[0]
            if type(x) is BV and tt.bits == x.w:
                return x
        # Newtype wrappers.
        if tt.k == "adt" and tt.j.get("adt_kind") == "Struct" and len(tt.j["variants"][0]["fields"]) == 1:
            f = tt.j["variants"][0]["fields"][0][1]
            if not (ft.k == "adt" and ft.name == tt.name):
                return Agg((self.transmute(v, frm, f),)) if f != frm else Agg((v,))
        if ft.k == "adt" and ft.j.get("adt_kind") == "Struct" and len(ft.j["variants"][0]["fields"]) == 1 and isinstance(v, Agg):
            f = ft.j["variants"][0]["fields"][0][1]
            return self.transmute(v.v[0], f, to) if f != to else v.v[0]
        if ft.name == tt.name:
            return v
        b = self.memory_bits(v, frm)
        if b is not None:
            r, rest = self.from_memory(b, to)
            if r is not None and not rest:
                return r
        raise Undecided("transmute of %s to %s" % (ft.name, tt.name))

    def memory_bits(self, v, tid):
        """The bits of integers and arrays of them as they lie in memory (little endian)."""
        t = self.P.types[tid]
        if t.bits and type(v) is BV and t.bits % 8 == 0:
            return v.b
        if t.k == "array" and isinstance(v, Agg):
            out = ()
            for x in v.v:
                b = self.memory_bits(x, t.j["elem"])
                if b is None:
                    return None
                out += b
            return out
        return None

    def from_memory(self, b, tid):
        t = self.P.types[tid]
        if t.bits and t.bits % 8 == 0 and t.k != "adt" and len(b) >= t.bits:
            return BV(b[:t.bits]), b[t.bits:]
        if t.k == "array":
            out = []
            for _ in range(t.j["len"]):
                x, b = self.from_memory(b, t.j["elem"])
                if x is None:
                    return None, b
                out.append(x)
            return Agg(out), b
        return None, b

    def rvalue(self, st, fr, body, r, dest_ty):
        k = r[0]
        if k == "use":
            if dest_ty in self.boxes and r[1][0] == "copy":
                # A second name for the same Box, to reach its content.
                return self.box_ptr(st, self.place_ptr(st, fr, r[1][1]), self.boxes[dest_ty])
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            place = r[2] if isinstance(r[2], list) else r[1]
            p = self.place_ptr(st, fr, place)
            return p
        if k in ("bin", "chk"):
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            signed = self.op_signed(body, r[2])
            return self.binop(r[1].replace("Unchecked", ""), a, b, signed, k == "chk")
        if k == "cast":
            if len(r) > 4:
                return Fn(r[4])
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, self.op_ty(body, r[2]), r[3])
        if k == "agg":
            return self.aggregate(st, fr, r)
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            return self.discr_bv(v, self.local_ty(body, r[1]), r[2])
        if k == "len":
            p = self.place_ptr(st, fr, r[1])
            if p.alts and p.alts[0][3] is not None:
                return self.slice_len(p)
            v = self.read_place(st, fr, r[1])
            return k64(len(v.v)) if isinstance(v, Agg) else seq_len(v)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n > 64:
                return Seq(((1, (("R", v, k64(n)),)),))
            return Agg((v,) * n)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return inv(v)
            if r[1] == "Neg":
                return sub(const(0, v.w), v)[0]
            if r[1] == "PtrMetadata":
                if type(v) is Ptr and v.alts and v.alts[0][3] is not None:
                    return self.slice_len(v)
                return UNIT
        if k == "other":
            return const(0, 1) if "RuntimeChecks" in str(r[1]) or "UbChecks" in str(r[1]) or "ContractChecks" in str(r[1]) else UNDEF
        raise Undecided("rvalue %s" % r[:2])

    def op_ty(self, body, o):
        if o[0] == "const":
            return o[1]["ty"]
        if o[0] in ("copy", "move"):
            return self.local_ty(body, o[1])
        return None

    def op_signed(self, body, o):
        t = self.op_ty(body, o)
        return t is not None and self.P.types[t].signed

    def aggregate(self, st, fr, r):
        kind, dest_ty = r[1], r[2]
        ops = [self.operand(st, fr, o) for o in r[3]]
        k = kind[0]
        if k == "adt":
            # ["adt", variant, active field]
            t = self.P.types[dest_ty]
            if t.j.get("adt_kind") == "Enum":
                i = kind[1]
                return Enum({i: 1}, {i: tuple(ops)})
            if t.j.get("adt_kind") == "Union":
                return Uni(ops)
            return Agg(ops)
        if k == "rawptr":
            p = ops[0]
            if len(ops) > 1 and type(ops[1]) is BV:
                out = []
                for g, o, path, m in p.alts:
                    if path and path[-1][0] == "i":
                        out.append((g, o, path[:-1], (path[-1][1], ops[1])))
                    else:
                        out.append((g, o, path, (k64(0), ops[1])))
                return Ptr(out)
            return p
        return Agg(ops)

    # ---- functions

    def where(self, span):
        return "%s (%s)" % (self.stack[-1].dfn if self.stack else "?", span)

    def record(self, kind, span, guard):
        if guard:
            self.panics.append(Panic(kind, span, guard, tuple(i.id for i in self.stack)))

    def call_inst(self, st, inst, args, dest_ty=None, span=None):
        """Apply a function. Returns (state or None, value)."""
        m = self.models.get(inst.dfn)
        if m is None:
            for rx, f in self.model_res:
                if rx.match(inst.dfn):
                    m = f
                    break
            self.models[inst.dfn] = m if m is not None else False
        if m:
            r = m(self, st, inst, args, dest_ty, span)
            if r is not NotImplemented:
                if st.pc == 0:
                    return None, UNDEF
                return st, r
        if inst.j.get("intrinsic"):
            f = self.intrinsics.get(inst.j["intrinsic"])
            if f is not None:
                r = f(self, st, inst, args, dest_ty, span)
                if r is not NotImplemented:
                    return (st, r) if st.pc else (None, UNDEF)
        if inst.j.get("never"):
            self.record("panic", span, st.pc)
            return None, UNDEF
        if inst.body is None and dest_ty is not None:
            v = self.constructor(inst, args, dest_ty)
            if v is not None:
                return st, v
        if inst.body is None:
            self.unknown.append((inst.name, span))
            # Anything reachable through a mutable pointer may have changed.
            raise Undecided("call of %s, which has no model" % inst.name)
        return self.run_body(st, inst, args)

    def constructor(self, inst, args, tid):
        """A tuple struct or variant used as a function."""
        t = self.P.types[tid]
        if t.k != "adt":
            return None
        d = t.j["def"]
        if inst.dfn == d and len(t.j["variants"]) == 1 and len(t.j["variants"][0]["fields"]) == len(args):
            return Agg(args)
        if inst.dfn.rsplit("::", 1)[0] == d and len(t.j["variants"]) > 0:
            for i, v in enumerate(t.j["variants"]):
                if v["name"] == inst.dfn.rsplit("::", 1)[1] and len(v["fields"]) == len(args):
                    return Enum({i: 1}, {i: tuple(args)})
        return None

    def run_body(self, st, inst, args):
        body = inst.body
        if len(self.stack) > 150:
            raise Undecided("call depth")
        if inst.local:
            self.visited.add(inst.id)
        if self.hook is not None:
            h = self.hook(self, st, inst, args)
            if h is not None:
                return h
        order = self.P.order(inst)
        nl = len(body["locals"])
        base = self.oid + 1
        self.oid += nl
        fr = range(base, base + nl)
        sp = body.get("spread")
        top = {}
        nargs = body["args"]
        if sp is not None and len(args) > nargs:
            args = list(args[:sp - 1]) + [Agg(args[sp - 1:])]
        if len(args) != nargs:
            raise Undecided("argument count of %s: %d, expected %d" % (inst.name, len(args), nargs))
        for i, a in enumerate(args):
            top[fr[i + 1]] = a
        lt = body["locals"]
        entry = State(st.pc, top, st.chain + (st.top,))
        self.stack.append(inst)
        pend = {0: entry}
        heap = [(order[0], 0)]
        count = {}
        ret = None
        blocks = body["blocks"]
        try:
            while heap:
                _, b = heapq.heappop(heap)
                s = pend.pop(b, None)
                if s is None or s.pc == 0:
                    continue
                n = count[b] = count.get(b, 0) + 1
                if n > self.loop_limit:
                    raise Undecided("loop in %s does not end within %d rounds" % (inst.name, self.loop_limit))
                self.steps += 1
                outs = self.block(s, fr, body, blocks[b], inst)
                for tb, ns in outs:
                    if ns.pc == 0:
                        continue
                    if tb == "ret":
                        ret = ns if ret is None else merge_states(ret, ns)
                        continue
                    o = pend.get(tb)
                    if o is None:
                        pend[tb] = ns
                        heapq.heappush(heap, (order[tb], tb))
                    else:
                        pend[tb] = merge_states(o, ns)
        except Undecided as e:
            if not getattr(e, "stack", None):
                e.stack = [i.name[:90] for i in self.stack[-3:]][::-1]
            raise
        finally:
            self.stack.pop()
        if ret is None:
            return None, UNDEF
        v = ret.top.get(fr[0], UNDEF)
        rt = self.P.types[lt[0]]
        if v is UNDEF and (rt.k == "tuple" and not rt.j["elems"]):
            v = UNIT
        st.pc = ret.pc
        lo, hi = base, base + nl
        for k, x in ret.top.items():
            if type(k) is int and lo <= k < hi:
                continue
            st.top[k] = x
        return st, v

    def block(self, st, fr, body, blk, inst):
        for s in blk[0]:
            if s[0] == "=":
                d = s[1]
                dt = body["locals"][d[0]] if len(d) == 1 else self.local_ty(body, d)
                v = self.rvalue(st, fr, body, s[2], dt)
                if len(d) == 1:
                    st.top[fr[d[0]]] = v
                else:
                    self.write_place(st, fr, d, v)
            elif s[0] == "sd":
                p = self.place_ptr(st, fr, s[1])
                v = self.deref_read(st, p)
                ps = dict(v.p) if type(v) is Enum else {}
                ps.setdefault(s[2], ())
                self.deref_write(st, p, Enum({s[2]: 1}, ps))
            elif s[0] == "copy_nonoverlapping":
                raise Undecided("copy_nonoverlapping")
        t = blk[1]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if v is UNDEF:
                raise Undecided("branch on an undefined value in %s" % inst.name)
            if type(v) is not BV:
                raise Undecided("branch on %s in %s" % (type(v).__name__, inst.name))
            outs = []
            rest = st.pc
            for val, tb in t[2]:
                c = eqc(v, int(val))
                p = AND(rest, c)
                if p:
                    rest = AND(rest, NOT(c))
                    outs.append((tb, p))
            if rest:
                outs.append((t[3], rest))
            if len(outs) == 1:
                st.pc = outs[0][1]
                return [(outs[0][0], st)]
            return [(tb, st.fork(p)) for tb, p in outs]
        if k == "call":
            f = t[1]
            args = [self.operand(st, fr, o) for o in t[2]]
            dt = self.local_ty(body, t[3])
            if isinstance(f, int):
                callee = self.P.insts[f]
            elif isinstance(f, list) and f[0] == "dyn":
                fv = self.operand(st, fr, f[1])
                if type(fv) is not Fn or fv.inst is None:
                    raise Undecided("call through an unknown function pointer")
                callee = self.P.insts[fv.inst]
            else:
                raise Undecided("unresolved call " + str(f))
            ns, v = self.apply(st, callee, args, dt, t[5])
            if ns is None or t[4] is None:
                return []
            self.write_place(ns, fr, t[3], v)
            return [(t[4], ns)]
        if k == "assert":
            v = self.operand(st, fr, t[1])
            c = v.b[0] if t[2] else NOT(v.b[0])
            bad = AND(st.pc, NOT(c))
            if bad:
                self.record(t[3].split("(")[0].strip(), t[5], bad)
            st.pc = AND(st.pc, c)
            return [(t[4], st)] if st.pc else []
        if k == "drop":
            if self.on_drop is not None:
                self.on_drop(self, st, self.place_ptr(st, fr, t[1]), t[5])
            if t[4] is not None and self.P.has_drop(t[4]):
                st = self.drop(st, self.place_ptr(st, fr, t[1]), t[4], t[5])
                if st is None:
                    return []
            return [(t[2], st)]
        if k == "unreachable":
            self.record("unreachable", t[1], st.pc)
            return []
        return []

    def apply(self, st, callee, args, dt, span):
        """A call as written in MIR: resolves closures (whose arguments come as a tuple)."""
        if callee.closure and len(args) == 2 and isinstance(args[1], Agg) and callee.body is not None:
            if self.spread_call(callee, args):
                args = [args[0]] + list(args[1].v)
        return self.call_inst(st, callee, args, dt, span)

    def spread_call(self, callee, args):
        if callee.body["spread"] is not None:
            return False
        if callee.body["args"] != 2:
            return True
        t = self.P.types[callee.body["locals"][2]]
        if t.k == "tuple":
            # ((a, b),) against (a, b)
            v = args[1].v
            return len(v) == 1 and isinstance(v[0], Agg) and len(v[0].v) == len(t.j["elems"]) and len(t.j["elems"]) != 1 or len(v) == 1 and len(t.j["elems"]) == 1 and isinstance(v[0], Agg)
        return True

    def call_closure(self, st, fv, tid, args, self_ref=True):
        """Call a closure or function value of type tid on a list of arguments."""
        t = self.P.types[tid]
        while t.k == "ref":
            fv = self.deref_read(st, fv)
            t = self.P.types[t.j["elem"]]
        if t.k == "fndef":
            return self.call_inst(st, self.P.insts[t.j["inst"]], list(args))
        if t.k == "closure":
            cands = [i for i in self.P.insts if i.closure and i.body and self.closure_self(i) == t.id]
            if not cands:
                raise Undecided("closure body not found: " + t.name)
            inst = cands[0]
            at = self.P.types[inst.body["locals"][1]]
            if at.k == "ref" and type(fv) is not Ptr:
                oid = self.new_oid()
                st.set(oid, fv)
                fv = Ptr(((1, oid, (), None),))
            elif at.k != "ref" and type(fv) is Ptr:
                fv = self.deref_read(st, fv)
            return self.call_inst(st, inst, [fv] + list(args))
        raise Undecided("call of " + t.name)

    def closure_self(self, inst):
        t = self.P.types[inst.body["locals"][1]]
        return t.j.get("elem") if t.k == "ref" else t.id

    def drop(self, st, ptr, tid, span):
        t = self.P.types[tid]
        if tid in self.P.drops:
            st, _ = self.call_inst(st, self.P.drops[tid], [ptr], None, span)
            if st is None:
                return None
        fields = []
        if t.k == "adt" and t.j.get("adt_kind") == "Struct":
            fields = [((("f", i),), f[1]) for i, f in enumerate(t.j["variants"][0]["fields"])]
            if t.j["def"] == "std::boxed::Box":
                fields = [((("b",),), t.j["args"][0])]
        elif t.k == "tuple":
            fields = [((("f", i),), e) for i, e in enumerate(t.j["elems"])]
        elif t.k == "adt" and t.j.get("adt_kind") == "Enum":
            for k, v in enumerate(t.j["variants"]):
                for i, f in enumerate(v["fields"]):
                    if self.P.has_drop(f[1]):
                        raise Undecided("drop of an enum with destructor")
        for path, ft in fields:
            if self.P.has_drop(ft):
                st = self.drop(st, Ptr(tuple((g, o, p + path, None) for g, o, p, m in ptr.alts)), ft, span)
                if st is None:
                    return None
        return st

    # ---- entry points for the checks

    def start(self, pc=1):
        return State(pc, {}, ())

    def obj(self, st, v):
        """Put a value in memory; returns a pointer to it."""
        oid = self.new_oid()
        st.set(oid, v)
        return Ptr(((1, oid, (), None),))

    def slice_ptr(self, st, seq, n=None):
        oid = self.new_oid()
        st.set(oid, seq)
        if n is None:
            n = k64(len(seq.v)) if isinstance(seq, Agg) else seq_len(seq)
        return Ptr(((1, oid, (), (k64(0), n)),))


def _eos(self, reached):
    """A bytecodec Eos value, built from its type."""
    t = self.P.ty_by_name.get("stun_codec::bytecodec::Eos") or self.P.ty_by_name["bytecodec::Eos"]
    bc = self.P.types[t.j["variants"][0]["fields"][0][1]]
    names = [v["name"] for v in bc.j["variants"]]
    if reached:
        i = names.index("Finite")
        return Agg((Enum({i: 1}, {i: (k64(0),)}),))
    i = names.index("Unknown")
    return Agg((Enum({i: 1}, {i: ()}),))


import models as _m
Interp.eos = _eos
Interp.seq_fn = _m.seq_fn
Interp.fresh_bytes = _m.fresh_bytes
Interp.opq_text = _m.opq_text
