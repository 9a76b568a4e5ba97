"""Models of the library functions whose code is not interpreted: growable sequences, slices, strings,
formatting, error tracking and the cryptographic primitives."""
import re
from bdd import *
from values import *

M = {}
RX = []
INTR = {}


def model(*names):
    def f(fn):
        for n in names:
            M[n] = fn
        return fn
    return f


def model_re(rx):
    def f(fn):
        RX.append((re.compile(rx + r"\Z"), fn))
        return fn
    return f


def intrinsic(*names):
    def f(fn):
        for n in names:
            INTR[n] = fn
        return fn
    return f


def install(ip):
    ip.models = dict(M)
    ip.model_res = RX
    ip.intrinsics = INTR
    ip.seq_fns = {}


def some(v):
    return Enum({1: 1}, {1: (v,)})


NONE = Enum({0: 1}, {0: ()})


def option(g, v):
    """Some(v) where g."""
    if g == 1:
        return some(v)
    if g == 0:
        return NONE
    return Enum({0: NOT(g), 1: g}, {0: (), 1: (v,)})


def ok(v):
    return Enum({0: 1}, {0: (v,)})


def err(v):
    return Enum({1: 1}, {1: (v,)})


def result(g, v, e):
    if g == 1:
        return ok(v)
    if g == 0:
        return err(e)
    return Enum({0: g, 1: NOT(g)}, {0: (v,), 1: (e,)})


def simp(ip, st, g):
    return restrict(g, st.pc) if st.pc else 0


# ---- error tracking

@model("trackable::Trackable::track")
def m_track(ip, st, inst, args, dt, span):
    return UNIT


def error_value(ip, kind, tid, note=("cause",)):
    t = ip.P.types[tid]
    fs = t.j["variants"][0]["fields"]
    return Agg(kind if f[0] == "kind" else opq(note + (f[0],)) for f in fs)


@model("trackable::error::ErrorKindExt::cause", "trackable::error::ErrorKindExt::error", "<trackable::error::TrackableError<K> as std::convert::From<K>>::from",
       "trackable::error::TrackableError::<K>::new")
def m_cause(ip, st, inst, args, dt, span):
    if dt is None:
        raise Undecided("error constructor")
    return error_value(ip, args[0], dt)


@model("trackable::error::ErrorKindExt::takes_over", "trackable::error::TrackableError::<K>::take_over")
def m_takes_over(ip, st, inst, args, dt, span):
    return error_value(ip, args[0], dt)


@model("trackable::error::TrackableError::<K>::kind")
def m_kind(ip, st, inst, args, dt, span):
    # The position of the field, from the type behind the argument.
    for t in ip.P.types:
        if t.k == "adt" and t.j["def"].endswith("error::TrackableError"):
            i = [f[0] for f in t.j["variants"][0]["fields"]].index("kind")
            break
    return Ptr(tuple((g, o, p + (("f", i),), None) for g, o, p, m in args[0].alts))


@model("<trackable::error::TrackableError<K> as std::clone::Clone>::clone")
def m_err_clone(ip, st, inst, args, dt, span):
    return ip.deref_read(st, args[0])


@model("<bytecodec::Error as std::convert::From<std::io::Error>>::from")
def m_from_io(ip, st, inst, args, dt, span):
    raise Undecided("conversion of an I/O error")


# ---- formatting

@model_re(r"core::fmt::rt::Argument::<'_>::new_\w+|std::fmt::Argument::<'_>::new_\w+|core::fmt::rt::Argument::<'_>::from_usize")
def m_fmt_arg(ip, st, inst, args, dt, span):
    k = inst.dfn.rsplit("new_", 1)[-1]
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    return FmtArg(k, args[0], ta[0] if ta else None)


@model("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::new")
def m_fmt_args(ip, st, inst, args, dt, span):
    tpl = ip.deref_read(st, args[0])
    items = ip.deref_read(st, args[1])
    bs = [x.c for x in (tpl.v if isinstance(tpl, Agg) else seq_const_items(tpl))]
    av = items.v if isinstance(items, Agg) else seq_const_items(items)
    parts, i, nxt = [], 0, 0
    while i < len(bs) and bs[i] != 0:
        n = bs[i]
        i += 1
        if n < 0x80:
            parts.append(seq_of(const(b, 8) for b in bs[i:i + n]))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            parts.append(seq_of(const(b, 8) for b in bs[i:i + ln]))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(tuple(bs[i:i + 4]))
                i += 4
            if n & 2:
                spec.append(tuple(bs[i:i + 2]))
                i += 2
            if n & 4:
                spec.append(tuple(bs[i:i + 2]))
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            parts.append((av[nxt], (n, tuple(spec))))
            nxt += 1
    return FmtArgs(parts)


@model_re(r"std::fmt::Arguments::<'a>::(from_str|from_str_nonconst|new_const)")
def m_fmt_from_str(ip, st, inst, args, dt, span):
    v = args[0]
    if type(v) is Ptr and v.alts and v.alts[0][3] is not None:
        return FmtArgs([ip.slice_seq(st, v)])
    return FmtArgs([("opaque",)])


def str_of(ip, st, ptr, tid):
    """Content of a str-like value behind ptr, or None."""
    t = ip.P.types[tid]
    while t.k == "ref":
        e = ip.P.types[t.j["elem"]]
        if e.k == "str":
            # ptr points to a &str.
            p = ip.deref_read(st, ptr)
            return ip.slice_seq(st, p) if type(p) is Ptr else None
        ptr = ip.deref_read(st, ptr)
        t = e
    if t.k == "str":
        return ip.slice_seq(st, ptr)
    if t.k == "adt" and t.j["def"] == "std::string::String":
        v = ip.deref_read(st, ptr)
        return v if type(v) is Seq else None
    return None


def fmt_render(ip, st, fa):
    """The text of format arguments; parts that are not strings become opaque text."""
    out = seq_of(())
    for p in fa.parts:
        if type(p) is Seq:
            out = seq_cat(out, p, st.pc)
            continue
        txt = None
        if p[0] != "opaque" and type(p[0]) is FmtArg:
            a = p[0]
            if a.kind == "display" and a.ty is not None and p[1][0] == 0xC0:
                txt = str_of(ip, st, a.ptr, a.ty)
                if txt is None and type(a.ptr) is Ptr:
                    t = ip.P.types[a.ty]
                    imp = [i for i in ip.P.insts if i.local and i.assoc == "fmt" and i.j.get("trait", "").endswith("Display") and i.body
                           and ip.P.types[i.body["locals"][1]].j.get("elem") == a.ty]
                    if imp:
                        oid = ip.new_oid()
                        st.set(oid, seq_of(()))
                        s2, r = ip.call_inst(st, imp[0], [a.ptr, Ptr(((1, oid, (), None),))])
                        if s2 is not None:
                            txt = ip.load_root(st, oid)
            if txt is None:
                key = ("text", a.kind, p[1], a.ty)
                try:
                    v = ip.deref_read(st, a.ptr) if type(a.ptr) is Ptr else None
                except Undecided:
                    v = None
                txt = ip.opq_text(key, v, st)
        else:
            txt = ip.opq_text(("text", "unknown", ip.seq), None, st)
        out = seq_cat(out, txt, st.pc)
    return out


def opq_text(self, key, v, st):
    """Opaque text that depends on a value."""
    if type(v) is BV:
        key = key + (v,)
        n = "text(%s)" % (v,)
    else:
        self.seq += 1
        key = key + (self.seq,)
        n = "text#%d" % self.seq
    src = self.opaque.get(("src", key))
    if src is None:
        src = Src(n, lambda nm: self.sym(self.P.ty_by_name["u8"].id, nm))
        self.opaque[("src", key)] = src
    ln = zext(self.opq_bv(("len", key), 8, "len(%s)" % n), 64)
    return Seq(((1, (("S", src, k64(0), ln),)),))


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def m_format(ip, st, inst, args, dt, span):
    fa = args[0]
    if type(fa) is not FmtArgs:
        return ip.opq_text(("fmt",), None, st)
    return fmt_render(ip, st, fa)


@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt", "std::fmt::Write::write_fmt")
def m_write_fmt(ip, st, inst, args, dt, span):
    fa = args[1]
    txt = fmt_render(ip, st, fa) if type(fa) is FmtArgs else ip.opq_text(("fmt",), None, st)
    old = ip.deref_read(st, args[0])
    if type(old) is Seq:
        ip.deref_write(st, args[0], seq_cat(old, txt, st.pc))
    return ok(UNIT)


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'_>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str",
       "std::fmt::Formatter::<'a>::pad", "<str as std::fmt::Display>::fmt")
def m_write_str(ip, st, inst, args, dt, span):
    f, x = (args[1], args[0]) if inst.dfn.startswith("<str") else (args[0], args[1])
    old = ip.deref_read(st, f)
    if type(old) is Seq:
        ip.deref_write(st, f, seq_cat(old, ip.slice_seq(st, x), st.pc))
    return ok(UNIT)


@model_re(r"std::fmt::Formatter::<'a>::debug_.*|core::fmt::builders::.*|<.* as std::fmt::Debug>::fmt|core::fmt::num::.*|<.* as std::fmt::(LowerHex|UpperHex|Pointer)>::fmt")
def m_debug(ip, st, inst, args, dt, span):
    if inst.local:
        return NotImplemented
    if "<impl std::fmt::Display for " in inst.dfn and type(args[0]) is Ptr and type(args[1]) is Ptr:
        old = ip.deref_read(st, args[1])
        name = inst.dfn.split(" for ")[1].split(">")[0]
        if type(old) is Seq and name in ip.P.ty_by_name:
            fa = FmtArgs([(FmtArg("display", args[0], ip.P.ty_by_name[name].id), (0xC0, ()))])
            ip.deref_write(st, args[1], seq_cat(old, fmt_render(ip, st, fa), st.pc))
    return ok(UNIT)


@model("std::string::ToString::to_string", "<T as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string",
       "std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::convert::From<&str>>::from",
       "std::string::<impl std::convert::From<&str> for std::string::String>::from")
def m_to_string(ip, st, inst, args, dt, span):
    p = args[0]
    if type(p) is Ptr and p.alts and p.alts[0][3] is not None:
        return ip.slice_seq(st, p)
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    v = None
    if ta:
        v = str_of(ip, st, p, ta[0])
    if v is not None:
        return v
    fa = FmtArgs([(FmtArg("display", p, ta[0] if ta else None), (0xC0, ()))])
    return fmt_render(ip, st, fa)


# ---- Vec and String

def vec_slice_ptr(ip, st, p):
    out = []
    for g, oid, path, meta in p.alts:
        q = AND(g, st.pc)
        if q == 0:
            continue
        v = ip.read_path(ip.load_root(st, oid), path, q)
        if type(v) is not Seq:
            raise Undecided("%s used as a Vec" % type(v).__name__)
        out.append((g, oid, path, (k64(0), seq_len(v))))
    return Ptr(out)


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
       "<std::vec::Vec<T, A> as std::convert::AsRef<std::vec::Vec<T, A>>>::as_ref_",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_bytes", "std::string::String::as_str",
       "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow",
       "std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow", "std::string::String::as_mut_str")
def m_vec_deref(ip, st, inst, args, dt, span):
    return vec_slice_ptr(ip, st, args[0])


@model("core::str::<impl str>::as_bytes", "core::str::<impl str>::as_ref", "<str as std::convert::AsRef<[u8]>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
       "<[T] as std::convert::AsRef<[T]>>::as_ref", "<[T] as std::convert::AsMut<[T]>>::as_mut", "std::str::from_utf8_unchecked", "core::str::from_utf8_unchecked",
       "core::str::traits::<impl std::convert::AsRef<[u8]> for str>::as_ref", "core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref")
def m_same_ptr(ip, st, inst, args, dt, span):
    return args[0]


@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def m_slice_len(ip, st, inst, args, dt, span):
    return ip.slice_len(args[0])


@model("std::vec::Vec::<T, A>::len", "std::string::String::len")
def m_vec_len(ip, st, inst, args, dt, span):
    return ip.slice_len(vec_slice_ptr(ip, st, args[0]))


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty")
def m_vec_is_empty(ip, st, inst, args, dt, span):
    return bool_bv(eqc(ip.slice_len(vec_slice_ptr(ip, st, args[0])), 0))


@model("std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default", "std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_vec_new(ip, st, inst, args, dt, span):
    return seq_of(())


def note_alloc(ip, st, inst, n, span):
    if ip.allocs_log is not None:
        ta = [a for a in inst.j.get("args", ()) if isinstance(a, int)]
        size = 1
        if ta and "String" not in inst.dfn:
            t = ip.P.types[ta[0]]
            size = 1 if t.k == "str" else ip.size_of(ta[0])
        ip.allocs_log.append((inst.dfn, span, mul(n, k64(size))[0] if size != 1 else n, st.pc, tuple(i.name for i in ip.stack)))


@model("std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity", "std::vec::Vec::<T, A>::with_capacity_in")
def m_vec_cap(ip, st, inst, args, dt, span):
    note_alloc(ip, st, inst, args[0], span)
    return seq_of(())


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::string::String::reserve", "std::vec::Vec::<T, A>::try_reserve")
def m_vec_reserve(ip, st, inst, args, dt, span):
    note_alloc(ip, st, inst, args[1], span)
    return UNIT


@model("std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::shrink_to_fit")
def m_nop(ip, st, inst, args, dt, span):
    return UNIT


@model("std::vec::from_elem", "<u8 as std::vec::spec_from_elem::SpecFromElem>::from_elem")
def m_from_elem(ip, st, inst, args, dt, span):
    n = restrict_bv(args[1], st.pc)
    note_alloc(ip, st, inst, n, span)
    if n.c is not None and n.c <= 64:
        return seq_of([args[0]] * n.c)
    return Seq(((1, (("R", args[0], n),)),))


def vec_modify(ip, st, p, f):
    """Replace the Vec behind p by f(value, pc)."""
    for g, oid, path, meta in p.alts:
        q = AND(g, st.pc)
        if q == 0:
            continue
        v = ip.read_path(ip.load_root(st, oid), path, q)
        if type(v) is not Seq:
            raise Undecided("%s used as a Vec" % type(v).__name__)
        new = f(v, q)
        gg = 1 if q == st.pc else restrict(g, st.pc)
        st.set(oid, ip.write_path(ip.load_root(st, oid), path, new, gg, q))


def whole(v):
    """Only the items below the length."""
    if v.ln is None:
        return v
    return seq_slice(v, k64(0), v.ln)


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
def m_push(ip, st, inst, args, dt, span):
    vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), seq_of([args[1]]), pc))
    return UNIT


@model("std::string::String::push")
def m_string_push(ip, st, inst, args, dt, span):
    c = args[1]
    if c.c is None or c.c >= 128:
        raise Undecided("push of a character")
    vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), seq_of([const(c.c, 8)]), pc))
    return UNIT


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str", "std::vec::Vec::<T, A>::append_elements",
       "alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all",
       "std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all")
def m_extend_slice(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[1])
    note_alloc(ip, st, inst, seq_len(s), span)
    vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), s, pc))
    return ok(UNIT) if "write_all" in inst.dfn else UNIT


@model("std::vec::Vec::<T, A>::append")
def m_append(ip, st, inst, args, dt, span):
    s = whole(ip.deref_read(st, args[1]))
    vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), s, pc))
    ip.deref_write(st, args[1], seq_of(()))
    return UNIT


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_clear(ip, st, inst, args, dt, span):
    ip.deref_write(st, args[0], seq_of(()))
    return UNIT


@model("std::vec::Vec::<T, A>::set_len")
def m_set_len(ip, st, inst, args, dt, span):
    n = args[1]

    def f(v, pc):
        full = seq_full_len(v)
        over = AND(pc, ult(full, n))
        if over:
            ip.ub.append(("set_len beyond the initialised items", span, over, tuple(i.name for i in ip.stack)))
        if implies(pc, eq(full, n)):
            return Seq(v.alts)
        return Seq(v.alts, n)
    vec_modify(ip, st, args[0], f)
    return UNIT


@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def m_truncate(ip, st, inst, args, dt, span):
    n = args[1]

    def f(v, pc):
        ln = seq_len(v)
        m = ite_bv(ult(n, ln), n, ln)
        return seq_slice(Seq(v.alts), k64(0), restrict_bv(m, pc), pc)
    vec_modify(ip, st, args[0], f)
    return UNIT


@model("std::vec::Vec::<T, A>::resize")
def m_resize(ip, st, inst, args, dt, span):
    n = args[1]
    note_alloc(ip, st, inst, n, span)

    def f(v, pc):
        v = whole(v)
        ln = seq_len(v)
        lt = ult(n, ln)
        a = seq_slice(v, k64(0), n, AND(pc, lt)) if AND(pc, lt) else seq_of(())
        d, _ = sub(n, ln)
        b = seq_cat(v, Seq(((1, (("R", args[2], d),)),)), AND(pc, NOT(lt)))
        return merge(lt, a, b)
    vec_modify(ip, st, args[0], f)
    return UNIT


@model("std::vec::Vec::<T, A>::pop")
def m_pop(ip, st, inst, args, dt, span):
    out = [NONE]

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        g = NOT(eqc(n, 0))
        m, _ = sub(n, k64(1))
        x = seq_get(v, m, AND(pc, g)) if AND(pc, g) else UNDEF
        out[0] = option(simp(ip, st, g), x)
        return merge(g, seq_slice(v, k64(0), m, AND(pc, g)), v) if AND(pc, g) else v
    if len(args[0].alts) != 1:
        raise Undecided("pop through several pointers")
    vec_modify(ip, st, args[0], f)
    return out[0]


@model("std::vec::Vec::<T, A>::insert")
def m_insert(ip, st, inst, args, dt, span):
    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        bad = AND(pc, ult(n, args[1]))
        ip.record("insert index", span, bad)
        st.pc = AND(st.pc, NOT(bad))
        pc = AND(pc, NOT(bad))
        a = seq_slice(v, k64(0), args[1], pc)
        b = seq_slice(v, args[1], sub(n, args[1])[0], pc)
        return seq_cat(seq_cat(a, seq_of([args[2]]), pc), b, pc)
    vec_modify(ip, st, args[0], f)
    return UNIT


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_remove(ip, st, inst, args, dt, span):
    out = []

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        bad = AND(pc, NOT(ult(args[1], n)))
        ip.record("remove index", span, bad)
        st.pc = AND(st.pc, NOT(bad))
        pc = AND(pc, NOT(bad))
        out.append(seq_get(v, args[1], pc))
        if "swap" in inst.dfn:
            last = seq_get(v, sub(n, k64(1))[0], pc)
            v = seq_write(v, args[1], seq_of([last]), pc)
            return seq_slice(v, k64(0), sub(n, k64(1))[0], pc)
        a = seq_slice(v, k64(0), args[1], pc)
        i1, _ = add(args[1], k64(1))
        return seq_cat(a, seq_slice(v, i1, sub(n, i1)[0], pc), pc)
    if len(args[0].alts) != 1:
        raise Undecided("remove through several pointers")
    vec_modify(ip, st, args[0], f)
    return out[0]


@model("std::vec::Vec::<T, A>::split_off")
def m_split_off(ip, st, inst, args, dt, span):
    out = []

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        bad = AND(pc, ult(n, args[1]))
        ip.record("split_off index", span, bad)
        st.pc = AND(st.pc, NOT(bad))
        pc = AND(pc, NOT(bad))
        out.append(seq_slice(v, args[1], sub(n, args[1])[0], pc))
        return seq_slice(v, k64(0), args[1], pc)
    if len(args[0].alts) != 1:
        raise Undecided("split_off through several pointers")
    vec_modify(ip, st, args[0], f)
    return out[0]


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::string::String as std::clone::Clone>::clone")
def m_vec_clone(ip, st, inst, args, dt, span):
    v = ip.deref_read(st, args[0])
    if type(v) is not Seq:
        raise Undecided("clone of %s" % type(v).__name__)
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    et = ip.P.types[ta[0]] if ta else None
    v = whole(v)
    note_alloc(ip, st, inst, seq_len(v), span)
    if et is not None and et.k == "adt" and (et.j.get("krate") == "stun_codec" or "stun_codec" in et.name):
        # Clone of the items is code of the crate.
        cl = [i for i in ip.P.insts if i.assoc == "clone" and i.body and ip.P.types[i.body["locals"][0]].id == et.id and i.j.get("trait", "").endswith("Clone")]
        if cl:
            alts = []
            for g, segs in v.alts:
                ns = []
                for s in segs:
                    if s[0] == "L":
                        items = []
                        for it in s[1]:
                            p = ip.obj(st, it)
                            s2, x = ip.call_inst(st, cl[0], [p], None, span)
                            if s2 is None:
                                raise Undecided("clone diverges")
                            items.append(x)
                        ns.append(("L", tuple(items)))
                    else:
                        ns.append(s)
                alts.append((g, tuple(ns)))
            return Seq(alts)
    return v


@model("std::slice::<impl [T]>::to_vec", "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
       "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "std::vec::<impl std::convert::From<&[T]> for std::vec::Vec<T>>::from",
       "std::slice::hack::to_vec", "std::slice::<impl [T]>::to_vec_in")
def m_to_vec(ip, st, inst, args, dt, span):
    if type(args[0]) is Ptr and args[0].alts and args[0].alts[0][3] is None:
        v = ip.deref_read(st, args[0])
        return ip.as_seq(v)
    s = ip.slice_seq(st, args[0])
    note_alloc(ip, st, inst, seq_len(s), span)
    return s


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::vec::<impl std::convert::From<[T; N]> for std::vec::Vec<T>>::from",
       "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from")
def m_box_vec(ip, st, inst, args, dt, span):
    v = args[0]
    while isinstance(v, Agg) and len(v.v) == 1 and not type(v.v[0]) is BV:
        v = v.v[0]
    if type(v) is Ptr:
        v = ip.deref_read(st, v)
    while isinstance(v, Uni):
        v = v.v[0]
    return ip.as_seq(v)


@model("std::string::String::into_bytes", "<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from",
       "std::string::<impl std::convert::From<std::string::String> for std::vec::Vec<u8>>::from",
       "std::string::String::from_utf8_unchecked")
def m_into_bytes(ip, st, inst, args, dt, span):
    return args[0]


# opaque functions of sequences

def seq_fn(self, st, name, args, width):
    """An opaque function of sequences and scalars: equal arguments give equal results."""
    known = self.seq_fns.setdefault(name, [])
    rest = st.pc
    hits = []
    for ys, u in known:
        if len(ys) != len(args):
            continue
        g = rest
        for x, y in zip(args, ys):
            g = equal_where(x, y, g)
            if g == 0:
                break
        if g:
            hits.append((g, u))
            rest = AND(rest, NOT(g))
            if rest == 0:
                break
    r = None
    if rest or not hits:
        nm = "%s#%d" % (name, len(known))
        r = self.fresh(width, nm) if width < 32 or width % 8 else self.fresh_bytes(width // 8, nm, name)
        known.append((tuple(restrict_seq(x, rest) if type(x) is Seq else x for x in args), r))
    for g, u in reversed(hits):
        r = u if r is None else ite_bv(restrict(g, st.pc), u, r)
    return r


def restrict_seq(s, pc):
    """Only the alternatives that are possible."""
    al = [(g, norm_segs(segs, AND(g, pc))) for g, segs in s.alts if AND(g, pc)]
    return Seq(tuple(al), s.ln) if al else s


def equal_where(x, y, pc):
    """A condition within pc under which two arguments are established to be equal."""
    if isinstance(x, (str, int)) or isinstance(y, (str, int)):
        return pc if x == y else 0
    if type(x) is Seq and type(y) is Seq:
        if x is y:
            return pc
        r = 0
        for g, sa in x.alts:
            for h, sb in y.alts:
                p = AND(AND(g, h), pc)
                if p and sa and sb and differ_at_once(sa[0], sb[0], p):
                    continue
                if p:
                    # In parts where the lengths agree.
                    p = AND(p, eq(seq_len(x), seq_len(y)))
                if p and segs_eq(sa, sb, p):
                    r = OR(r, p)
        return r
    return pc if val_eq(x, y, pc) else 0


def fresh_bytes(self, n, nm, fn):
    """Fresh bits ordered byte by byte, where asked for next to the bytes they will be compared with."""
    ids = self.byte_ids.get(fn)
    ids = ids.pop(0) if ids else None
    bits = []
    for j in range(n):
        if ids:
            b = fresh(ids[j], 8, "%s.%d" % (nm, j))
        else:
            b = self.fresh(8, "%s.%d" % (nm, j))
        bits += b.b
    return BV(tuple(bits))


def is_text(ip, st, s):
    """Condition under which the bytes are valid UTF-8."""
    cond = 0
    for g, segs in s.alts:
        p = AND(g, st.pc)
        if p == 0:
            continue
        good = True
        for x in segs:
            if x[0] == "L":
                good = good and all(type(b) is BV and b.b[7] == 0 for b in x[1])
            elif x[0] == "S":
                full = x[1].name in ip.utf8_srcs and x[2].c == 0
                if full:
                    ln = ip.opaque.get(("len", x[1].name))
                    full = ln is not None and implies(p, eq(zext(ln, 64), x[3]))
                good = good and full
            else:
                good = good and x[1].b[7] == 0
        if good:
            c = 1
        else:
            c = ip.seq_fn(st, "utf8", [Seq(((1, segs),))], 1).b[0]
            # The empty string is text.
            t = k64(0)
            for x in segs:
                t, _ = add(t, seg_len(x))
            c = OR(c, eqc(t, 0))
        cond = OR(cond, AND(g, c))
    return cond


@model("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8")
def m_from_utf8(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0])
    g = is_text(ip, st, s)
    return result(simp(ip, st, g), args[0], opq(("Utf8Error",)))


@model("std::string::String::from_utf8")
def m_string_from_utf8(ip, st, inst, args, dt, span):
    s = whole(args[0])
    g = is_text(ip, st, s)
    return result(simp(ip, st, g), s, Agg((s, opq(("Utf8Error",)))))


@model("core::str::<impl str>::chars")
def m_chars(ip, st, inst, args, dt, span):
    return Mac("chars", None, ip.slice_seq(st, args[0]))


def char_count(ip, st, s):
    n = seq_len(s)
    items = seq_const_items(s)
    if items is not None and all(type(b) is BV and b.b[7] == 0 for b in items):
        return k64(len(items))
    r = zext(ip.seq_fn(st, "chars", [s], 20), 64)
    # len/4 <= count <= len, and 0 only for the empty string.
    q, _ = add(n, k64(3))
    ax = AND(NOT(ult(n, r)), NOT(ult(r, lshr_c(q, 2))))
    ip.axioms = AND(ip.axioms, OR(NOT(st.pc), ax))
    st.pc = AND(st.pc, ax)
    return r


@model("<std::str::Chars<'a> as std::iter::Iterator>::count")
def m_chars_count(ip, st, inst, args, dt, span):
    return char_count(ip, st, args[0].msg)


@model("<std::str::Chars<'a> as std::iter::Iterator>::nth", "std::iter::Iterator::nth")
def m_chars_nth(ip, st, inst, args, dt, span):
    v = ip.deref_read(st, args[0])
    if type(v) is not Mac or v.alg != "chars":
        return NotImplemented
    c = char_count(ip, st, v.msg)
    ip.deref_write(st, args[0], Bad("rest of an iterator over characters"))
    return option(simp(ip, st, ult(args[1], c)), ip.fresh(32, "char"))


@model("core::str::<impl str>::is_char_boundary")
def m_boundary(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0])
    n = ip.slice_len(args[0])
    return bool_bv(OR(OR(eqc(args[1], 0), eq(args[1], n)), ip.seq_fn(st, "boundary", [s, args[1]], 1).b[0]))


def edge_count(ip, st, s, last, test, key):
    """How many items at one end of a sequence pass a test: exact for the first, opaque beyond."""
    n = restrict_bv(seq_len(s), st.pc)
    limit = min(n.c, 64) if n.c is not None else 1
    m, alive = k64(0), 1
    for i in range(limit):
        inside = AND(AND(alive, ult(k64(i), n)), st.pc)
        if inside == 0:
            return m
        at = sub(n, k64(i + 1))[0] if last else k64(i)
        b = seq_get(s, restrict_bv(at, inside), inside)
        alive = AND(AND(alive, ult(k64(i), n)), test(b, i))
        m = ite_bv(alive, k64(i + 1), m)
    if n.c is not None and n.c <= limit:
        return m
    rest = sub(n, k64(limit))[0]
    more = zext(ip.seq_fn(st, "edge" + key, [s], 17), 64)
    q = AND(alive, ult(k64(limit), n))
    ax = OR(NOT(q), NOT(ult(rest, more)))
    ip.axioms = AND(ip.axioms, OR(NOT(st.pc), ax))
    st.pc = AND(st.pc, ax)
    return ite_bv(q, add(k64(limit), more)[0], m)


def char_test(ip, st, s, pat, key):
    """The test of one byte of a text for a character or for white space."""
    def space(b, i):
        c = 0
        for x in (9, 10, 11, 12, 13, 32):
            c = OR(c, eqc(b, x))
        return OR(c, AND(b.b[7], ip.seq_fn(st, "space%d%s" % (i, key), [s], 1).b[0]))
    if pat is None:
        return space
    if type(pat) is BV and pat.c is not None and pat.c < 128:
        return lambda b, i: eqc(b, pat.c)
    raise Undecided("a pattern in a text")


@model_re(r"core::str::<impl str>::trim(_start|_end)?(_matches)?$")
def m_trim(ip, st, inst, args, dt, span):
    nm = inst.dfn.rsplit("::", 1)[1]
    s = ip.slice_seq(st, args[0])
    n = ip.slice_len(args[0])
    pat = args[1] if nm.endswith("_matches") else None
    key = "%s" % (pat.c if type(pat) is BV else "",)
    a, z = k64(0), k64(0)
    if "_end" not in nm:
        a = edge_count(ip, st, s, False, char_test(ip, st, s, pat, key + "<"), key + "<")
    if "_start" not in nm:
        z = edge_count(ip, st, s, True, char_test(ip, st, s, pat, key + ">"), key + ">")
    both = AND(NOT(ult(sub(n, a)[0], z)), 1)
    end = ite_bv(both, sub(n, z)[0], a)
    return sub_slice(ip, st, args[0], lambda k: a, lambda k: end, span)


@model_re(r"core::str::<impl str>::strip_(prefix|suffix)$")
def m_strip(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0])
    n = ip.slice_len(args[0])
    last = inst.dfn.endswith("suffix")
    if type(args[1]) is BV and args[1].c is not None and args[1].c < 128:
        lit = [const(args[1].c, 8)]
    elif type(args[1]) is Ptr:
        lit = seq_const_items(ip.slice_seq(st, args[1]))
        if lit is None:
            return NotImplemented
    else:
        return NotImplemented
    m = k64(len(lit))
    g = NOT(ult(n, m))
    for i, x in enumerate(lit):
        q = AND(g, st.pc)
        if q == 0:
            return none()
        at = add(sub(n, m)[0], k64(i))[0] if last else k64(i)
        g = AND(g, eq(seq_get(s, restrict_bv(at, q), q), x))
    if AND(g, st.pc) == 0:
        return none()
    st2 = st.fork(AND(st.pc, g))
    p = sub_slice(ip, st2, args[0], (lambda k: k64(0)) if last else (lambda k: m), (lambda k: sub(k, m)[0]) if last else (lambda k: k), span)
    return option(simp(ip, st, g), p)


# ---- comparison

def items_of(v):
    if isinstance(v, Agg):
        return v.v
    if type(v) is Seq:
        return seq_const_items(v)
    return None


def flat_bits(v):
    if type(v) is BV:
        return v.b
    if isinstance(v, Agg):
        out = ()
        for x in v.v:
            b = flat_bits(x)
            if b is None:
                return None
            out += b
        return out
    return None


def eq_cond(ip, st, a, b):
    """Condition under which two values are equal."""
    if val_eq(a, b, st.pc):
        return 1
    if type(a) is Seq or type(b) is Seq:
        a, b = ip.as_seq(a), ip.as_seq(b)
        ia, ib = seq_const_items(a), seq_const_items(b)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return 0
            return eq_cond(ip, st, Agg(ia), Agg(ib))
        le = eq(seq_len(a), seq_len(b))
        if AND(le, st.pc) == 0:
            return 0
        if le == 1 or implies(st.pc, le):
            n = restrict_bv(seq_len(a), st.pc)
            if n.c is not None and n.c <= 64:
                return eq_cond(ip, st, Agg(seq_get(a, k64(i), st.pc) for i in range(n.c)), Agg(seq_get(b, k64(i), st.pc) for i in range(n.c)))
        x = ip.seq_fn(st, "seqeq", [a, b], 1).b[0]
        return AND(le, x)
    fa, fb = flat_bits(a), flat_bits(b)
    if fa is not None and fb is not None and len(fa) == len(fb):
        diff = []
        for x, y in zip(fa, fb):
            d = XOR(x, y)
            if AND(d, st.pc):
                if d == 1:
                    return 0
                diff.append(d)
        if len(diff) <= 64:
            r = 1
            for d in diff:
                r = AND(r, NOT(d))
            return r
        # A wide comparison whose diagram is too large is one opaque bit, the same for the same pair.
        old = BUDGET[0]
        BUDGET[0] = min(old, len(VAR) + 300000)
        try:
            r = 1
            for d in reversed(diff):
                r = AND(r, NOT(d))
            return r
        except Budget:
            pass
        finally:
            BUDGET[0] = old
        key = ("wideeq", tuple(sorted((fa, fb))))
        r = ip.opq_bv(key, 1, "eq").b[0]
        ip.wide_eqs.append((fa, fb, r))
        return r
    if type(a) is Enum and type(b) is Enum:
        r = 0
        for k in set(a.g) & set(b.g):
            g = AND(a.g[k], b.g[k])
            if AND(g, st.pc) == 0:
                continue
            c = g
            for x, y in zip(a.p.get(k) or (), b.p.get(k) or ()):
                c = AND(c, eq_cond(ip, st, x, y))
            r = OR(r, c)
        return r
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        r = 1
        for x, y in zip(a.v, b.v):
            r = AND(r, eq_cond(ip, st, x, y))
        return r
    raise Undecided("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


@model_re(r"std::array::equality::<impl std::cmp::PartialEq.*>::(eq|ne)|<T as std::array::equality::SpecArrayEq<U, N>>::spec_(eq|ne)")
def m_array_eq(ip, st, inst, args, dt, span):
    def val(p):
        if p.alts and p.alts[0][3] is not None:
            return ip.slice_seq(st, p)
        v = ip.deref_read(st, p)
        while type(v) is Ptr:
            v = ip.slice_seq(st, v) if v.alts[0][3] is not None else ip.deref_read(st, v)
        return v
    c = eq_cond(ip, st, val(args[0]), val(args[1]))
    return bool_bv(NOT(c) if inst.dfn.endswith("ne") else c)


@model("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "<A as core::slice::cmp::SlicePartialEq<B>>::equal_same_length", "<A as core::slice::cmp::SlicePartialEq<B>>::equal",
       "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne")
def m_slice_eq(ip, st, inst, args, dt, span):
    a, b = args[0], args[1]
    if a.alts[0][3] is None:
        a_, b_ = ip.deref_read(st, a), ip.deref_read(st, b)
    else:
        a_, b_ = ip.slice_seq(st, a), ip.slice_seq(st, b)
    c = eq_cond(ip, st, a_, b_)
    return bool_bv(NOT(c) if inst.dfn.endswith("ne") else c)


@model("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq", "<std::string::String as std::cmp::PartialEq>::eq")
def m_vec_eq(ip, st, inst, args, dt, span):
    return bool_bv(eq_cond(ip, st, whole(ip.deref_read(st, args[0])), whole(ip.deref_read(st, args[1]))))


# ---- slices

def bounds(ip, st, bad, span, what):
    b = AND(st.pc, bad)
    if b:
        ip.record(what, span, b)
        st.pc = AND(st.pc, NOT(b))
    return st.pc != 0


def sub_slice(ip, st, p, lo, hi, span, what="slice index"):
    """p[lo..hi], where lo and hi map an alternative's length to a bound."""
    bad = 0
    out = []
    for g, o, path, m in p.alts:
        if AND(g, st.pc) == 0:
            continue
        if m is None:
            v = ip.read_path(ip.load_root(st, o), path, AND(g, st.pc))
            m = (k64(0), k64(len(v.v)) if isinstance(v, Agg) else seq_len(v))
        a, b = lo(m[1]), hi(m[1])
        bad = OR(bad, AND(g, OR(ult(b, a), ult(m[1], b))))
        out.append((g, o, path, (add(m[0], a)[0], sub(b, a)[0])))
    if not bounds(ip, st, bad, span, what):
        return UNDEF
    return Ptr(tuple((g, o, path, (restrict_bv(m[0], AND(g, st.pc)), restrict_bv(m[1], AND(g, st.pc)))) for g, o, path, m in out if AND(g, st.pc)))


@model_re(r"<std::ops::Range<usize> as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut)")
def m_ix_range(ip, st, inst, args, dt, span):
    r = args[0].v
    return sub_slice(ip, st, args[1], lambda n: r[0], lambda n: r[1], span)


@model_re(r"<std::ops::RangeFrom<usize> as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut)")
def m_ix_from(ip, st, inst, args, dt, span):
    r = args[0].v
    return sub_slice(ip, st, args[1], lambda n: r[0], lambda n: n, span)


@model_re(r"<std::ops::RangeTo<usize> as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut)")
def m_ix_to(ip, st, inst, args, dt, span):
    r = args[0].v
    return sub_slice(ip, st, args[1], lambda n: k64(0), lambda n: r[0], span)


@model_re(r"<std::ops::RangeFull as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut)")
def m_ix_full(ip, st, inst, args, dt, span):
    return args[1]


@model_re(r"<std::ops::RangeInclusive<usize> as std::slice::SliceIndex<(\[T\]|str)>>::(index|index_mut)")
def m_ix_incl(ip, st, inst, args, dt, span):
    r = args[0].v
    return sub_slice(ip, st, args[1], lambda n: r[0], lambda n: add(r[1], k64(1))[0], span)


def elem_ptr(p, i):
    return Ptr(tuple((g, o, path + (("i", add(m[0], i)[0] if m is not None else i),), None) for g, o, path, m in p.alts))


@model_re(r"<usize as std::slice::SliceIndex<\[T\]>>::(index|index_mut)")
def m_ix_usize(ip, st, inst, args, dt, span):
    if not bounds(ip, st, NOT(ult(args[0], ip.slice_len(args[1]))), span, "index out of bounds"):
        return UNDEF
    return elem_ptr(args[1], restrict_bv(args[0], st.pc))


def init_bound(ip, st, p, i, span, what):
    """Unchecked access: the item must exist (below the allocated, initialised part)."""
    for g, o, path, m in p.alts:
        q = AND(g, st.pc)
        if q == 0:
            continue
        v = ip.read_path(ip.load_root(st, o), path, q)
        n = k64(len(v.v)) if isinstance(v, Agg) else seq_full_len(v)
        j, c = add(m[0], i) if m is not None else (i, 0)
        bad = AND(q, OR(c, NOT(ult(j, n))))
        if bad:
            ip.ub.append((what, span, bad, tuple(x.name for x in ip.stack)))
        if m is not None:
            beyond = AND(q, NOT(ult(i, m[1])))
            if beyond:
                ip.ub.append((what + " (beyond the length)", span, beyond, tuple(x.name for x in ip.stack)))


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_get_unchecked(ip, st, inst, args, dt, span):
    if type(args[1]) is not BV:
        r = args[1].v
        t = [ip.P.types[a].name for a in inst.j["args"] if isinstance(a, int)]
        n = t[-1] if t else ""
        if "RangeTo<" in n:
            return sub_slice(ip, st, args[0], lambda k: k64(0), lambda k: r[0], span, "unchecked slice")
        if "RangeFrom<" in n:
            return sub_slice(ip, st, args[0], lambda k: r[0], lambda k: k, span, "unchecked slice")
        if "::Range<" in n:
            return sub_slice(ip, st, args[0], lambda k: r[0], lambda k: r[1], span, "unchecked slice")
        raise Undecided("unchecked index by " + n)
    init_bound(ip, st, args[0], args[1], span, "unchecked index")
    return elem_ptr(args[0], args[1])


@model_re(r"core::slice::<impl \[T\]>::(get|get_mut)|core::str::<impl str>::(get|get_mut)")
def m_get(ip, st, inst, args, dt, span):
    p, ix = args[0], args[1]
    n = ip.slice_len(p)
    if type(ix) is BV:
        g = ult(ix, n)
        return option(simp(ip, st, g), elem_ptr(p, ix))
    t = [ip.P.types[a].name for a in inst.j["args"] if isinstance(a, int)]
    nm = t[-1] if t else ""
    r = ix.v
    if "RangeTo<" in nm:
        lo, hi = (lambda k: k64(0)), (lambda k: r[0])
    elif "RangeFrom<" in nm:
        lo, hi = (lambda k: r[0]), (lambda k: k)
    elif "RangeFull" in nm:
        return some(p)
    elif "::Range<" in nm:
        lo, hi = (lambda k: r[0]), (lambda k: r[1])
    else:
        raise Undecided("get by " + nm)
    g = 0
    out = []
    for gg, o, path, m in p.alts:
        a, b = lo(m[1]), hi(m[1])
        good = AND(NOT(ult(b, a)), NOT(ult(m[1], b)))
        g = OR(g, AND(gg, good))
        out.append((gg, o, path, (add(m[0], a)[0], sub(b, a)[0])))
    return option(simp(ip, st, g), Ptr(out))


@model_re(r"core::slice::<impl \[T\]>::(first|first_mut|last|last_mut)")
def m_first(ip, st, inst, args, dt, span):
    n = ip.slice_len(args[0])
    g = NOT(eqc(n, 0))
    out = []
    for gg, o, path, m in args[0].alts:
        i = m[0] if "first" in inst.dfn else sub(add(m[0], m[1])[0], k64(1))[0]
        out.append((gg, o, path + (("i", i),), None))
    return option(simp(ip, st, g), Ptr(out))


@model_re(r"core::slice::<impl \[T\]>::(split_at|split_at_mut)|core::str::<impl str>::split_at")
def m_split_at(ip, st, inst, args, dt, span):
    if not bounds(ip, st, ult(ip.slice_len(args[0]), args[1]), span, "split_at"):
        return UNDEF
    a = sub_slice(ip, st, args[0], lambda n: k64(0), lambda n: args[1], span)
    b = sub_slice(ip, st, args[0], lambda n: args[1], lambda n: n, span)
    return Agg((a, b))


@model_re(r"core::slice::<impl \[T\]>::(split_first|split_last)")
def m_split_first(ip, st, inst, args, dt, span):
    n = ip.slice_len(args[0])
    g = NOT(eqc(n, 0))
    fi, re_ = [], []
    for gg, o, path, m in args[0].alts:
        n1 = sub(m[1], k64(1))[0]
        if "first" in inst.dfn:
            fi.append((gg, o, path + (("i", m[0]),), None))
            re_.append((gg, o, path, (add(m[0], k64(1))[0], n1)))
        else:
            fi.append((gg, o, path + (("i", add(m[0], n1)[0]),), None))
            re_.append((gg, o, path, (m[0], n1)))
    return option(simp(ip, st, g), Agg((Ptr(fi), Ptr(re_))))


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::copy_from_slice_impl", "core::slice::<impl [T]>::clone_from_slice")
def m_copy_from(ip, st, inst, args, dt, span):
    a, b = ip.slice_len(args[0]), ip.slice_len(args[1])
    if not bounds(ip, st, NOT(eq(a, b)), span, "copy_from_slice length mismatch"):
        return UNDEF
    ip.slice_write(st, args[0], ip.slice_seq(st, args[1]))
    return UNIT


@model("core::slice::<impl [T]>::fill")
def m_fill(ip, st, inst, args, dt, span):
    n = restrict_bv(ip.slice_len(args[0]), st.pc)
    ip.slice_write(st, args[0], Seq(((1, (("R", args[1], n),)),)))
    return UNIT


@model("core::slice::<impl [T]>::swap")
def m_swap_items(ip, st, inst, args, dt, span):
    n = ip.slice_len(args[0])
    if not bounds(ip, st, OR(NOT(ult(args[1], n)), NOT(ult(args[2], n))), span, "index out of bounds"):
        return UNDEF
    p, q = elem_ptr(args[0], args[1]), elem_ptr(args[0], args[2])
    a, b = ip.deref_read(st, p), ip.deref_read(st, q)
    ip.deref_write(st, p, b)
    ip.deref_write(st, q, a)
    return UNIT


@model("core::slice::<impl [T]>::reverse")
def m_reverse(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0])
    items = seq_const_items(s)
    if items is None:
        raise Undecided("reverse of a sequence of unknown length")
    ip.slice_write(st, args[0], seq_of(reversed(items)))
    return UNIT


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def m_as_ptr(ip, st, inst, args, dt, span):
    p = args[0] if "slice" in inst.dfn else vec_slice_ptr(ip, st, args[0])
    return Ptr(tuple((g, o, path + (("i", m[0]),), None) for g, o, path, m in p.alts))


@model_re(r"std::ptr::(mut_ptr|const_ptr)::<impl \*(mut|const) T>::(add|offset)")
def m_ptr_add(ip, st, inst, args, dt, span):
    out = []
    for g, o, path, m in args[0].alts:
        if not path or path[-1][0] != "i":
            raise Undecided("pointer arithmetic")
        out.append((g, o, path[:-1] + (("i", add(path[-1][1], args[1])[0]),), None))
    return Ptr(out)


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def m_from_raw(ip, st, inst, args, dt, span):
    out = []
    for g, o, path, m in args[0].alts:
        if path and path[-1][0] == "i":
            out.append((g, o, path[:-1], (path[-1][1], args[1])))
        else:
            raise Undecided("slice from a raw pointer")
    return Ptr(out)


@model_re(r"std::array::<impl std::convert::TryFrom<&(mut )?\[T\]> for (&(mut )?)?\[T; N\]>::try_from|std::array::<impl std::convert::TryFrom<&'a \[T\]> for &'a \[T; N\]>::try_from")
def m_array_try_from(ip, st, inst, args, dt, span):
    n = None
    for a in inst.j["args"]:
        if isinstance(a, str):
            n = int(a.split()[-1])
    g = eqc(ip.slice_len(args[0]), n)
    if "for &" in inst.dfn:
        raise Undecided("reference to an array inside a slice")
    if AND(g, st.pc) == 0:
        return err(UNIT)
    save = st.pc
    st.pc = AND(st.pc, g)
    s = ip.slice_seq(st, args[0])
    st.pc = save
    p = AND(save, g)
    return result(simp(ip, st, g), Agg(seq_get(s, k64(i), p) for i in range(n)), Agg((UNIT,)))


# ---- iterators

@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def m_iter(ip, st, inst, args, dt, span):
    return SIter(args[0])


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_vec_ref_iter(ip, st, inst, args, dt, span):
    return SIter(vec_slice_ptr(ip, st, args[0]))


def siter_next(ip, st, p, back=False):
    it = ip.deref_read(st, p)
    if type(it) is not SIter:
        raise Undecided("%s used as a slice iterator" % type(it).__name__)
    n = ip.slice_len(it.p)
    g = NOT(eqc(n, 0))
    if AND(g, st.pc) == 0:
        return NONE
    rest, item = [], []
    for h, o, path, m in it.p.alts:
        if AND(h, st.pc) == 0:
            continue
        n1 = sub(m[1], k64(1))[0]
        pos = add(m[0], n1)[0] if back else m[0]
        item.append((h, o, path + (("i", restrict_bv(pos, AND(h, st.pc))),), None))
        rest.append((h, o, path, (m[0] if back else add(m[0], k64(1))[0], n1)))
    gg = simp(ip, st, g)
    ip.deref_write(st, p, SIter(merge(gg, Ptr(rest), it.p)))
    return option(gg, Ptr(item))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_siter_next(ip, st, inst, args, dt, span):
    return siter_next(ip, st, args[0])


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_siter_next_back(ip, st, inst, args, dt, span):
    return siter_next(ip, st, args[0], True)


def search(ip, st, p, back, test, nothing):
    """Go through a slice iterator until test(state, item, number) -> (state, found, result) finds something."""
    from interp import merge_states
    ends = []
    cur = st.fork(st.pc)
    for k in range(ip.loop_limit):
        x = siter_next(ip, cur, p, back)
        g = x.g.get(1, 0)
        stop = AND(cur.pc, NOT(g))
        if stop:
            ends.append((cur.fork(stop), nothing))
        if AND(cur.pc, g) == 0:
            break
        cur = cur.fork(AND(cur.pc, g))
        cur, f, r = test(cur, x.p[1][0], k)
        if cur is None:
            break
        if AND(cur.pc, f):
            ends.append((cur.fork(AND(cur.pc, f)), r))
        if AND(cur.pc, NOT(f)) == 0:
            break
        cur = cur.fork(AND(cur.pc, NOT(f)))
    else:
        raise Undecided("iterator does not end")
    if not ends:
        st.pc = 0
        return UNDEF
    out, v = ends[0]
    for s2, r in ends[1:]:
        g = restrict(s2.pc, OR(s2.pc, out.pc))
        v = merge(g, r, v)
        out = merge_states(out, s2)
    st.pc, st.top = out.pc, out.top
    return v


@model_re(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::(DoubleEnded)?Iterator>::r?(find|find_map|any|all|position|for_each)")
def m_siter_search(ip, st, inst, args, dt, span):
    name = inst.dfn.rsplit("::", 1)[1]
    back = name in ("rfind", "rposition")
    name = name[1:] if back else name
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    fp = ip.obj(st, args[1])
    p = ip.obj(st, args[0]) if type(args[0]) is SIter else args[0]
    total = ip.slice_len(ip.deref_read(st, p).p)

    def test(s, x, k):
        arg = ip.obj(s, x) if name == "find" else x
        s2, r = ip.call_closure(s, fp, ta[-1], [arg])
        if s2 is None:
            return None, 0, None
        if name == "find_map":
            return s2, r.g.get(1, 0), r
        if name == "for_each":
            return s2, 0, UNIT
        b = r.b[0]
        if name == "find":
            return s2, b, some(x)
        if name == "any":
            return s2, b, BV((1,))
        if name == "all":
            return s2, NOT(b), BV((0,))
        return s2, b, some(sub(total, k64(k + 1))[0] if back else k64(k))
    nothing = {"any": BV((0,)), "all": BV((1,)), "for_each": UNIT}.get(name, NONE)
    return search(ip, st, p, back, test, nothing)


@model_re(r"<std::slice::Iter(Mut)?<'\w+, T> as std::iter::Iterator>::__iterator_get_unchecked")
def m_siter_get(ip, st, inst, args, dt, span):
    it = ip.deref_read(st, args[0])
    return Ptr([(h, o, path + (("i", restrict_bv(add(m[0], args[1])[0], AND(h, st.pc))),), None) for h, o, path, m in it.p.alts if AND(h, st.pc)])


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::nth")
def m_siter_nth(ip, st, inst, args, dt, span):
    it = ip.deref_read(st, args[0])
    n = ip.slice_len(it.p)
    k = args[1]
    g = ult(k, n)
    gg = simp(ip, st, g)
    rest, item = [], []
    for h, o, path, m in it.p.alts:
        adv = ite_bv(gg, add(k, k64(1))[0], m[1])
        item.append((h, o, path + (("i", restrict_bv(add(m[0], k)[0], AND(h, st.pc))),), None))
        rest.append((h, o, path, (add(m[0], adv)[0], sub(m[1], adv)[0])))
    ip.deref_write(st, args[0], SIter(Ptr(rest)))
    return option(gg, Ptr(item))


@model_re(r"<std::slice::Iter(Mut)?<'a?_?, T> as std::iter::(Iterator|ExactSizeIterator)>::(count|len)|<std::slice::Iter(Mut)?<'_, T> as std::iter::ExactSizeIterator>::len")
def m_siter_len(ip, st, inst, args, dt, span):
    it = args[0] if type(args[0]) is SIter else ip.deref_read(st, args[0])
    return ip.slice_len(it.p)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint")
def m_siter_hint(ip, st, inst, args, dt, span):
    n = ip.slice_len(ip.deref_read(st, args[0]).p)
    return Agg((n, some(n)))


@model("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone")
def m_siter_clone(ip, st, inst, args, dt, span):
    return ip.deref_read(st, args[0])


@model("std::slice::Iter::<'a, T>::as_slice")
def m_siter_slice(ip, st, inst, args, dt, span):
    return ip.deref_read(st, args[0]).p


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_vec_into_iter(ip, st, inst, args, dt, span):
    return VIter(whole(args[0]))


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
       "<std::vec::Splice<'_, I, A> as std::iter::Iterator>::next", "<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::next",
       "<std::collections::vec_deque::Drain<'_, T, A> as std::iter::Iterator>::next")
def m_viter_next(ip, st, inst, args, dt, span):
    return viter_next(ip, st, args[0])


def viter_next(ip, st, p):
    it = ip.deref_read(st, p)
    if type(it) is not VIter:
        raise Undecided("%s used as a Vec iterator" % type(it).__name__)
    n = seq_len(it.s)
    g = NOT(eqc(n, 0))
    q = AND(g, st.pc)
    if q == 0:
        return NONE
    x = seq_get(it.s, k64(0), q)
    rest = seq_slice(it.s, k64(1), restrict_bv(sub(n, k64(1))[0], q), q)
    gg = simp(ip, st, g)
    ip.deref_write(st, p, VIter(merge(gg, rest, it.s)))
    return option(gg, x)


@model("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::next", "<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::next")
def m_dqiter_next(ip, st, inst, args, dt, span):
    return siter_next(ip, st, args[0])


@model("<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back", "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back",
       "<std::collections::vec_deque::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back")
def m_viter_back(ip, st, inst, args, dt, span):
    p = args[0]
    it = ip.deref_read(st, p)
    n = seq_len(it.s)
    g = NOT(eqc(n, 0))
    q = AND(g, st.pc)
    if q == 0:
        return NONE
    m = restrict_bv(sub(n, k64(1))[0], q)
    x = seq_get(it.s, m, q)
    gg = simp(ip, st, g)
    ip.deref_write(st, p, VIter(merge(gg, seq_slice(it.s, k64(0), m, q), it.s)))
    return option(gg, x)


@model("<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len", "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::size_hint",
       "<std::vec::IntoIter<T, A> as std::iter::Iterator>::count")
def m_viter_len(ip, st, inst, args, dt, span):
    it = args[0] if type(args[0]) is VIter else ip.deref_read(st, args[0])
    n = seq_len(it.s)
    return Agg((n, some(n))) if inst.dfn.endswith("size_hint") else n


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint")
def m_viter_hint(ip, st, inst, args, dt, span):
    n = seq_len(ip.deref_read(st, args[0]).s)
    return Agg((n, some(n)))


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold")
def m_viter_try_fold(ip, st, inst, args, dt, span):
    """Items go through a function that says whether to go on: R is Option, Result, ControlFlow or a wrapper that always goes on."""
    from interp import merge_states
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    fp = ip.obj(st, args[2])
    t = ip.P.types[dt]
    d = t.j.get("def", "") if t.k == "adt" else ""
    if d.endswith("::Option"):
        go, wrap = 1, some
    elif d.endswith("::Result") or d.endswith("::ControlFlow"):
        go, wrap = 0, lambda x: Enum({0: 1}, {0: (x,)})
    elif d.endswith("::NeverShortCircuit"):
        go, wrap = None, lambda x: Agg((x,))
    else:
        raise Undecided("try_fold to " + t.name)
    ftid = ta[[ip.P.types[a].k in ("closure", "fndef", "ref") for a in ta].index(True)] if len(ta) < 4 else ta[-2]
    ends = []
    acc = args[1]
    cur = st.fork(st.pc)
    accp = ip.obj(cur, acc)
    for _ in range(ip.loop_limit):
        x = viter_next(ip, cur, args[0])
        g = x.g.get(1, 0)
        stop = AND(cur.pc, NOT(g))
        if stop:
            s = cur.fork(stop)
            ends.append((s, wrap(ip.deref_read(s, accp))))
        if AND(cur.pc, g) == 0:
            break
        cur = cur.fork(AND(cur.pc, g))
        cur, r = ip.call_closure(cur, fp, ftid, [ip.deref_read(cur, accp), x.p[1][0]])
        if cur is None:
            break
        if go is None:
            ip.deref_write(cur, accp, r.v[0])
            continue
        on = r.g.get(go, 0)
        off = AND(cur.pc, NOT(on))
        if off:
            ends.append((cur.fork(off), r))
        if AND(cur.pc, on) == 0:
            break
        cur = cur.fork(AND(cur.pc, on))
        ip.deref_write(cur, accp, r.p[go][0])
    else:
        raise Undecided("iterator does not end")
    if not ends:
        st.pc = 0
        return UNDEF
    out, v = ends[0]
    for s2, r in ends[1:]:
        v = merge(restrict(s2.pc, OR(s2.pc, out.pc)), r, v)
        out = merge_states(out, s2)
    st.pc, st.top = out.pc, out.top
    return v


@model("std::vec::IntoIter::<T, A>::as_slice", "std::vec::IntoIter::<T, A>::as_mut_slice")
def m_viter_slice(ip, st, inst, args, dt, span):
    out = []
    for g, o, path, m in args[0].alts:
        it = ip.read_path(ip.load_root(st, o), path, AND(g, st.pc))
        nid = ip.new_oid()
        st.set(nid, it.s)
        out.append((g, nid, (), (k64(0), seq_len(it.s))))
    return Ptr(out)


def next_inst(ip, tid):
    for i in ip.P.methods.get("next", []):
        if i.body and i.j.get("trait", "").endswith("Iterator") and ip.P.types[i.body["locals"][1]].j.get("elem") == tid:
            return i
    return None


def iter_next(ip, st, p, tid, span):
    """next() on an iterator of type tid in memory."""
    t = ip.P.types[tid]
    v = ip.deref_read(st, p)
    if type(v) is SIter:
        return siter_next(ip, st, p)
    if type(v) is VIter:
        return viter_next(ip, st, p)
    if t.k == "ref":
        return iter_next(ip, st, v, t.j["elem"], span)
    i = next_inst(ip, tid)
    if i is not None:
        s2, r = ip.call_inst(st, i, [p], i.body["locals"][0], span)
        if s2 is None:
            st.pc = 0
            return NONE
        return r
    d = t.j.get("def", "")

    def fp(k):
        return Ptr(tuple((g, o, path + (("f", k),), None) for g, o, path, m in p.alts))
    fields = t.j["variants"][0]["fields"] if t.k == "adt" and t.j["variants"] else []
    if d == "std::iter::Map":
        x = iter_next(ip, st, fp(0), fields[0][1], span)
        return opt_map(ip, st, x, lambda s, y: ip.call_closure(s, fp(1), fields[1][1], [y]))
    if d in ("std::iter::Cloned", "std::iter::Copied"):
        x = iter_next(ip, st, fp(0), fields[0][1], span)
        return opt_map(ip, st, x, lambda s, y: (s, ip.deref_read(s, y)))
    if d == "std::iter::Enumerate":
        x = iter_next(ip, st, fp(0), fields[0][1], span)
        c = ip.deref_read(st, fp(1))
        g = x.g.get(1, 0)
        ip.deref_write(st, fp(1), merge(g, add(c, k64(1))[0], c))
        return opt_map(ip, st, x, lambda s, y: (s, Agg((c, y))))
    raise Undecided("iterator " + t.name)


def opt_map(ip, st, x, f):
    """Some(y) -> Some(f(y)); the rest of the state is joined."""
    g = x.g.get(1, 0)
    q = AND(g, st.pc)
    if q == 0:
        return NONE
    if q == st.pc:
        s2, r = f(st, x.p[1][0])
        if s2 is None:
            st.pc = 0
            return NONE
        return some(r)
    s = st.fork(q)
    s2, r = f(s, x.p[1][0])
    from interp import merge_states
    other = st.fork(AND(st.pc, NOT(q)))
    if s2 is None:
        st.pc = other.pc
        return NONE
    j = merge_states(other, s2)
    st.pc, st.top = j.pc, j.top
    return option(simp(ip, st, g), r)


def drain(ip, st, itv, tid, each, span):
    """Run an iterator to its end."""
    p = ip.obj(st, itv)
    from interp import merge_states
    done = None
    cur = st.fork(st.pc)
    for _ in range(ip.loop_limit):
        if cur is None or cur.pc == 0:
            break
        x = iter_next(ip, cur, p, tid, span)
        if cur.pc == 0:
            break
        g = x.g.get(1, 0)
        stop = AND(cur.pc, NOT(g))
        if stop:
            s = cur.fork(stop)
            done = s if done is None else merge_states(done, s)
        go = AND(cur.pc, g)
        if go == 0:
            cur = None
            break
        cur.pc = go
        cur = each(cur, x.p[1][0])
    else:
        raise Undecided("iterator does not end")
    if done is None:
        st.pc = 0
        return
    st.pc, st.top = done.pc, done.top


def item_iter(ip, st, v, tid):
    """IntoIterator on a value."""
    t = ip.P.types[tid]
    if type(v) is Seq:
        return VIter(whole(v)), tid
    if type(v) in (SIter, VIter):
        return v, tid
    if t.k == "ref":
        e = ip.P.types[t.j["elem"]]
        if e.k == "slice":
            return SIter(v), tid
        if e.k == "adt" and e.j["def"] == "std::vec::Vec":
            return SIter(vec_slice_ptr(ip, st, v)), tid
        if e.k == "array":
            return SIter(Ptr(tuple((g, o, pa, (k64(0), k64(e.j["len"]))) for g, o, pa, m in v.alts))), tid
    if t.k == "array":
        return VIter(seq_of(v.v)), tid
    if t.k == "adt" and t.j.get("def") == "std::iter::Take" and isinstance(v, Agg):
        inner = ip.P.types[t.j["variants"][0]["fields"][0][1]]
        if inner.j.get("def") == "std::iter::Repeat":
            return VIter(Seq(((1, (("R", v.v[0].v[0], v.v[1]),)),))), tid
    if t.k == "adt" and t.j.get("def") == "std::iter::RepeatN" and isinstance(v, Agg):
        raise Undecided("repeat_n")
    if t.k == "adt" and not t.j.get("def", "").startswith("std::iter::") and next_inst(ip, tid) is None:
        for i in ip.P.methods.get("into_iter", []):
            if i.body and i.body["args"] == 1 and i.body["locals"][1] == tid:
                s2, r = ip.call_inst(st, i, [v], i.body["locals"][0], None)
                if s2 is None:
                    st.pc = 0
                return r, i.body["locals"][0]
    return v, tid


@model("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "std::vec::Vec::<T, A>::extend_trusted",
       "std::vec::Vec::<T, A>::extend_desugared")
def m_extend(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    itv, tid = item_iter(ip, st, args[1], ta[-1])
    byref = "&'a T" in inst.dfn

    def each(s, x):
        y = ip.deref_read(s, x) if byref else x
        vec_modify(ip, s, args[0], lambda v, pc: seq_cat(whole(v), seq_of([y]), pc))
        return s
    if type(itv) is VIter:
        note_alloc(ip, st, inst, seq_len(itv.s), span)
        vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), itv.s, pc))
        return UNIT
    if type(itv) is SIter and byref:
        s = ip.slice_seq(st, itv.p)
        vec_modify(ip, st, args[0], lambda v, pc: seq_cat(whole(v), s, pc))
        return UNIT
    drain(ip, st, itv, tid, each, span)
    return UNIT


@model("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "std::vec::in_place_collect::<impl std::vec::spec_from_iter::SpecFromIter<T, I> for std::vec::Vec<T>>::from_iter",
       "<std::vec::Vec<T> as std::vec::spec_from_iter::SpecFromIter<T, I>>::from_iter")
def m_from_iter(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    itv, tid = item_iter(ip, st, args[0], ta[-1])
    if type(itv) is VIter:
        note_alloc(ip, st, inst, seq_len(itv.s), span)
        return itv.s
    # A map over an opaque list, item by item the same, is an opaque list again.
    r = map_opaque(ip, st, itv, tid, span)
    if r is not None:
        return r
    out = ip.obj(st, seq_of(()))

    def each(s, x):
        vec_modify(ip, s, out, lambda v, pc: seq_cat(v, seq_of([x]), pc))
        return s
    drain(ip, st, itv, tid, each, span)
    return ip.deref_read(st, out)


def map_opaque(ip, st, itv, tid, span):
    t = ip.P.types[tid]
    if t.k != "adt" or t.j.get("def") not in ("std::iter::Map", "std::iter::Copied", "std::iter::Cloned") or not isinstance(itv, Agg):
        return None
    inner = itv.v[0]
    if type(inner) is VIter:
        s = inner.s
    elif type(inner) is SIter:
        s = ip.slice_seq(st, inner.p)
    else:
        return None
    if all(x[0] == "L" for g, segs in s.alts for x in segs):
        return None
    fields = t.j["variants"][0]["fields"]
    alts = []
    for g, segs in s.alts:
        if AND(g, st.pc) == 0:
            continue
        ns = []
        for x in segs:
            def conv(st2, y):
                if type(inner) is SIter:
                    y = ip.obj(st2, y)
                if t.j["def"] != "std::iter::Map":
                    return ip.deref_read(st2, y) if type(inner) is SIter else y
                s3, r = ip.call_closure(st2, itv.v[1], fields[1][1], [y])
                if s3 is None:
                    raise Undecided("map diverges")
                return r
            if x[0] == "L":
                ns.append(("L", tuple(conv(st, y) for y in x[1])))
            elif x[0] == "S":
                base = st
                src = x[1]
                key = ("mapsrc", src.name, tid)
                m = ip.opaque.get(key)
                if m is None:
                    def make(nm, src=src, conv=conv):
                        raise Undecided("mapped item")
                    m = Src("map(%s)" % src.name, make)
                    m.base = src
                    m.conv = lambda y, conv=conv, base=base: conv(base.fork(base.pc), y)
                    ip.opaque[key] = m
                ns.append(("S", m, x[2], x[3]))
            else:
                ns.append(("R", conv(st, x[1]), x[2]))
        alts.append((g, tuple(ns)))
    return Seq(alts)


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(ip, st, inst, args, dt, span):
    return NotImplemented


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::fold", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::fold")
def m_fold(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    acc = ip.obj(st, args[1])
    fp = ip.obj(st, args[2])

    def each(s, x):
        s2, r = ip.call_closure(s, fp, ta[-1], [ip.deref_read(s, acc), x])
        if s2 is None:
            return None
        ip.deref_write(s2, acc, r)
        return s2
    drain(ip, st, args[0], ta[0], each, span)
    return ip.deref_read(st, acc) if st.pc else UNDEF


# ---- mem and ptr

@model("std::mem::replace")
def m_replace(ip, st, inst, args, dt, span):
    old = ip.deref_read(st, args[0])
    ip.deref_write(st, args[0], args[1])
    return old


@model("std::mem::swap")
def m_swap(ip, st, inst, args, dt, span):
    a, b = ip.deref_read(st, args[0]), ip.deref_read(st, args[1])
    ip.deref_write(st, args[0], b)
    ip.deref_write(st, args[1], a)
    return UNIT


@model("std::ptr::read", "std::ptr::mut_ptr::<impl *mut T>::read", "std::ptr::const_ptr::<impl *const T>::read")
def m_ptr_read(ip, st, inst, args, dt, span):
    return ip.deref_read(st, args[0])


@model("std::ptr::write", "std::ptr::mut_ptr::<impl *mut T>::write")
def m_ptr_write(ip, st, inst, args, dt, span):
    ip.deref_write(st, args[0], args[1])
    return UNIT


@model("std::mem::forget", "std::mem::drop")
def m_forget(ip, st, inst, args, dt, span):
    return UNIT if inst.dfn.endswith("forget") else NotImplemented


@model("std::boxed::Box::<T>::new", "<std::boxed::Box<T> as std::convert::From<T>>::from", "std::boxed::Box::<T>::pin")
def m_box_new(ip, st, inst, args, dt, span):
    return Bx((args[0],))


def reachable_insts(ip, inst, depth=4):
    """The functions an instance calls, directly or through others."""
    seen, level = {inst.id}, [inst]
    for _ in range(depth):
        nxt = []
        for i in level:
            for _, t in (i.body["blocks"] if i.body else ()):
                if t[0] == "call" and isinstance(t[1], int) and t[1] not in seen:
                    seen.add(t[1])
                    nxt.append(ip.P.insts[t[1]])
                    yield nxt[-1]
        level = nxt


def type_arg(inst):
    return [a for a in inst.j["args"] if isinstance(a, int)][0]


@model("<std::boxed::Box<T> as std::default::Default>::default")
def m_box_default(ip, st, inst, args, dt, span):
    el = type_arg(inst)
    for i in reachable_insts(ip, inst):
        if i.assoc == "default" and i.body and i.body["args"] == 0 and i.body["locals"][0] == el:
            s2, v = ip.call_inst(st, i, [], el, span)
            if s2 is None:
                st.pc = 0
                return UNDEF
            return Bx((v,))
    raise Undecided("default of " + inst.name)


@model("<std::boxed::Box<T, A> as std::clone::Clone>::clone", "<std::boxed::Box<[T], A> as std::clone::Clone>::clone",
       "std::boxed::clone::<impl std::clone::Clone for std::boxed::Box<T, A>>::clone", "<std::boxed::Box<str> as std::clone::Clone>::clone")
def m_box_clone(ip, st, inst, args, dt, span):
    b = ip.deref_read(st, args[0])
    if type(b) is not Bx:
        raise Undecided("clone of a Box")
    if type(b.v[0]) is Seq:
        return b
    el = type_arg(inst)
    for i in reachable_insts(ip, inst):
        if i.assoc == "clone" and i.body and i.body["args"] == 1 and i.body["locals"][0] == el:
            p = Ptr(tuple((g, o, path + (("b",),), None) for g, o, path, m in args[0].alts))
            s2, v = ip.call_inst(st, i, [p], el, span)
            if s2 is None:
                st.pc = 0
                return UNDEF
            return Bx((v,))
    return b


@model("std::boxed::Box::<T, A>::leak", "std::boxed::Box::<T, A>::into_raw", "std::boxed::Box::<T>::into_raw")
def m_box_leak(ip, st, inst, args, dt, span):
    v = args[0].v[0]
    return ip.slice_ptr(st, v) if type(v) is Seq else ip.obj(st, v)


@model("std::boxed::Box::<T, A>::into_inner", "std::boxed::Box::<T>::into_inner")
def m_box_inner(ip, st, inst, args, dt, span):
    return args[0].v[0]


@model("std::vec::Vec::<T, A>::into_boxed_slice", "std::string::String::into_boxed_str", "std::boxed::convert::<impl std::convert::From<std::vec::Vec<T, A>> for std::boxed::Box<[T], A>>::from",
       "<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from", "std::string::<impl std::convert::From<std::string::String> for std::boxed::Box<str>>::from")
def m_to_box(ip, st, inst, args, dt, span):
    return Bx((whole(args[0]),))


@model_re(r".*<impl std::convert::From<&(mut )?(\[T\]|str)> for std::boxed::Box<(\[T\]|str)>>::from|<std::boxed::Box<(\[T\]|str)> as std::convert::From<&(mut )?(\[T\]|str)>>::from")
def m_slice_box(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0])
    note_alloc(ip, st, inst, seq_len(s), span)
    return Bx((s,))


@model("std::slice::<impl [T]>::into_vec", "std::str::<impl str>::into_string", "std::str::<impl str>::into_boxed_bytes")
def m_box_into_vec(ip, st, inst, args, dt, span):
    if type(args[0]) is Bx:
        return args[0] if "boxed" in inst.dfn else ip.as_seq(args[0].v[0])
    return m_to_vec(ip, st, inst, args, dt, span)


@model_re(r".*<impl std::convert::From<std::boxed::Box<(\[T\], A|\[T\]|str)>> for std::(vec::Vec<T, A>|vec::Vec<T>|string::String)>::from|<std::(vec::Vec<T, A>|string::String) as std::convert::From<std::boxed::Box<(\[T\], A|str)>>>::from")
def m_box_to_vec(ip, st, inst, args, dt, span):
    return ip.as_seq(args[0].v[0])


@model_re(r".*<impl std::iter::IntoIterator for std::boxed::Box<\[I\], A>>::into_iter|.*<impl std::iter::FromIterator<I> for std::boxed::Box<\[I\]>>::from_iter")
def m_box_iter(ip, st, inst, args, dt, span):
    if inst.assoc == "into_iter":
        return VIter(ip.as_seq(args[0].v[0]))
    return Bx((m_from_iter(ip, st, inst, args, dt, span),))


# ---- shared pointers

@model_re(r"std::(rc::Rc|sync::Arc)::<T>::new")
def m_rc_new(ip, st, inst, args, dt, span):
    return ip.obj(st, args[0])


@model_re(r"<std::(rc::Rc|sync::Arc)<T, A> as std::ops::Deref>::deref|<std::(rc::Rc|sync::Arc)<T, A> as std::convert::AsRef<T>>::as_ref|<std::(rc::Rc|sync::Arc)<T, A> as std::borrow::Borrow<T>>::borrow|<std::(rc::Rc|sync::Arc)<T, A> as std::clone::Clone>::clone")
def m_rc_deref(ip, st, inst, args, dt, span):
    p = ip.deref_read(st, args[0])
    if type(p) is not Ptr:
        raise Undecided("shared pointer")
    return p


@model_re(r".*<impl std::convert::From<&\[T\]> for std::(rc::Rc|sync::Arc)<\[T\]>>::from|<std::(rc::Rc|sync::Arc)<(\[T\]|str)> as std::convert::From<&(\[T\]|str)>>::from|<std::(rc::Rc|sync::Arc)<\[T\], A> as std::convert::From<std::vec::Vec<T, A>>>::from|<std::(rc::Rc|sync::Arc)<str> as std::convert::From<std::string::String>>::from")
def m_rc_slice(ip, st, inst, args, dt, span):
    s = ip.slice_seq(st, args[0]) if type(args[0]) is Ptr else whole(args[0])
    note_alloc(ip, st, inst, seq_len(s), span)
    return ip.slice_ptr(st, s)


# ---- double-ended queues: sequences, too

D = "std::collections::VecDeque"
D2 = "std::collections::vec_deque::VecDeque"


def dq(*names):
    return [n.replace("DQ", d) for n in names for d in (D, D2)]


@model(*dq("DQ::<T>::new", "DQ::<T>::with_capacity", "<DQ<T> as std::default::Default>::default"))
def m_dq_new(ip, st, inst, args, dt, span):
    if args:
        note_alloc(ip, st, inst, args[0], span)
    return seq_of(())


@model(*dq("DQ::<T, A>::push_back", "DQ::<T, A>::push_front"))
def m_dq_push(ip, st, inst, args, dt, span):
    if inst.dfn.endswith("back"):
        return m_push(ip, st, inst, args, dt, span)
    vec_modify(ip, st, args[0], lambda v, pc: seq_cat(seq_of([args[1]]), whole(v), pc))
    return UNIT


@model(*dq("DQ::<T, A>::pop_back"))
def m_dq_pop(ip, st, inst, args, dt, span):
    return m_pop(ip, st, inst, args, dt, span)


@model(*dq("DQ::<T, A>::pop_front"))
def m_dq_pop_front(ip, st, inst, args, dt, span):
    out = [NONE]

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        g = NOT(eqc(n, 0))
        q = AND(pc, g)
        x = seq_get(v, k64(0), q) if q else UNDEF
        out[0] = option(simp(ip, st, g), x)
        return merge(g, seq_slice(v, k64(1), restrict_bv(sub(n, k64(1))[0], q), q), v) if q else v
    if len(args[0].alts) != 1:
        raise Undecided("pop through several pointers")
    vec_modify(ip, st, args[0], f)
    return out[0]


@model(*dq("DQ::<T, A>::len", "DQ::<T, A>::is_empty", "DQ::<T, A>::clear", "DQ::<T, A>::truncate", "DQ::<T, A>::append", "DQ::<T, A>::reserve",
           "DQ::<T, A>::make_contiguous", "DQ::<T, A>::iter", "DQ::<T, A>::iter_mut", "DQ::<T, A>::front", "DQ::<T, A>::back", "DQ::<T, A>::front_mut", "DQ::<T, A>::back_mut",
           "DQ::<T, A>::get", "DQ::<T, A>::get_mut", "<DQ<T, A> as std::clone::Clone>::clone", "<DQ<T, A> as std::iter::IntoIterator>::into_iter",
           "<DQ<T> as std::iter::FromIterator<T>>::from_iter", "<DQ<T, A> as std::iter::Extend<T>>::extend",
           "<DQ<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from", "<DQ<T, A> as std::ops::Index<usize>>::index", "<DQ<T, A> as std::ops::IndexMut<usize>>::index_mut",
           "<&'a DQ<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut DQ<T, A> as std::iter::IntoIterator>::into_iter",
           "DQ::<T, A>::insert", "DQ::<T, A>::split_off"))
def m_dq_other(ip, st, inst, args, dt, span):
    n = inst.assoc or inst.dfn.rsplit("::", 1)[1]
    if n == "len":
        return ip.slice_len(vec_slice_ptr(ip, st, args[0]))
    if n == "is_empty":
        return bool_bv(eqc(ip.slice_len(vec_slice_ptr(ip, st, args[0])), 0))
    if n == "make_contiguous":
        return vec_slice_ptr(ip, st, args[0])
    if n in ("iter", "iter_mut") or n == "into_iter" and type(args[0]) is Ptr:
        return SIter(vec_slice_ptr(ip, st, args[0]))
    if n in ("front", "back", "front_mut", "back_mut"):
        p = vec_slice_ptr(ip, st, args[0])
        ln = ip.slice_len(p)
        g = NOT(eqc(ln, 0))
        if AND(g, st.pc) == 0:
            return NONE
        i = k64(0) if "front" in n else restrict_bv(sub(ln, k64(1))[0], AND(g, st.pc))
        return option(simp(ip, st, g), elem_ptr(p, i))
    if n in ("get", "get_mut"):
        p = vec_slice_ptr(ip, st, args[0])
        return option(simp(ip, st, ult(args[1], ip.slice_len(p))), elem_ptr(p, args[1]))
    if n in ("index", "index_mut"):
        p = vec_slice_ptr(ip, st, args[0])
        if not bounds(ip, st, NOT(ult(args[1], ip.slice_len(p))), span, "index out of bounds"):
            return UNDEF
        return elem_ptr(p, restrict_bv(args[1], st.pc))
    if n == "from":
        return whole(args[0])
    f = {"clear": m_clear, "truncate": m_truncate, "append": m_append, "clone": m_vec_clone, "into_iter": m_vec_into_iter, "reserve": m_vec_reserve,
         "from_iter": m_from_iter, "extend": m_extend, "insert": m_insert, "split_off": m_split_off}[n]
    return f(ip, st, inst, args, dt, span)


@model_re(r".*<impl std::convert::From<std::collections::(vec_deque::)?VecDeque<T, A>> for std::vec::Vec<T, A>>::from|<std::vec::Vec<T, A> as std::convert::From<std::collections::(vec_deque::)?VecDeque<T, A>>>::from")
def m_dq_vec(ip, st, inst, args, dt, span):
    return whole(args[0])


# ---- taking parts out of sequences

def range_of(ip, st, v, n, tid):
    """(start, end) of a range value over n items, from its type."""
    if isinstance(v, Agg) and len(v.v) == 2 and all(type(x) is Enum for x in v.v):
        raise Undecided("range bounds")
    nm = ip.P.types[tid].name
    if "RangeFull" in nm:
        return k64(0), n
    if "RangeToInclusive<" in nm:
        return k64(0), add(v.v[0], k64(1))[0]
    if "RangeTo<" in nm:
        return k64(0), v.v[0]
    if "RangeFrom<" in nm:
        return v.v[0], n
    if "RangeInclusive<" in nm:
        return v.v[0], add(v.v[1], k64(1))[0]
    if "::Range<" in nm:
        return v.v[0], v.v[1]
    raise Undecided("range " + nm)


def cut_out(ip, st, inst, p, r, tid, new, span):
    """Replace a range of the sequence behind p by new; returns what was there."""
    out = []

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        a, b = range_of(ip, st, r, n, tid)
        bad = AND(pc, OR(ult(b, a), ult(n, b)))
        ip.record("range out of bounds", span, bad)
        st.pc = AND(st.pc, NOT(bad))
        pc = AND(pc, NOT(bad))
        if pc == 0:
            out.append(seq_of(()))
            return v
        a, b = restrict_bv(a, pc), restrict_bv(b, pc)
        out.append(seq_slice(v, a, sub(b, a)[0], pc))
        x = seq_slice(v, k64(0), a, pc)
        if new is not None:
            x = seq_cat(x, new, pc)
        return seq_cat(x, seq_slice(v, b, sub(n, b)[0], pc), pc)
    if len(p.alts) != 1:
        raise Undecided("drain through several pointers")
    vec_modify(ip, st, p, f)
    return out[0]


@model("std::vec::Vec::<T, A>::drain", *dq("DQ::<T, A>::drain"))
def m_drain(ip, st, inst, args, dt, span):
    tid = [a for a in inst.j["args"] if isinstance(a, int)][-1]
    return VIter(cut_out(ip, st, inst, args[0], args[1], tid, None, span))


@model("std::vec::Vec::<T, A>::splice")
def m_splice(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    new = m_from_iter(ip, st, FakeInst(inst, [ta[0], ta[-1]]), [args[2]], dt, span)
    return VIter(cut_out(ip, st, inst, args[0], args[1], ta[-2], new, span))


class FakeInst:
    """An instance with other type arguments."""

    def __init__(self, inst, args):
        self.__dict__.update(j=dict(inst.j, args=args), dfn=inst.dfn, name=inst.name, body=inst.body, assoc=inst.assoc, id=inst.id)


@model("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut", *dq("DQ::<T, A>::retain"))
def m_retain(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    fp = ip.obj(st, args[1])
    out = ip.obj(st, seq_of(()))
    src = ip.obj(st, whole(ip.deref_read(st, args[0])))
    it = SIter(vec_slice_ptr(ip, st, src))

    def each(s, x):
        s2, r = ip.call_closure(s, fp, ta[-1], [x])
        if s2 is None:
            return None
        keep = r.b[0]
        if AND(keep, s2.pc) == 0:
            return s2
        y = ip.deref_read(s2, x)
        vec_modify(ip, s2, out, lambda v, pc: merge(keep, seq_cat(v, seq_of([y]), AND(pc, keep)), v))
        return s2
    drain(ip, st, it, ta[0], each, span)
    if st.pc:
        ip.deref_write(st, args[0], ip.deref_read(st, out))
    return UNIT


@model("std::vec::Vec::<T, A>::extend_from_within")
def m_extend_within(ip, st, inst, args, dt, span):
    tid = [a for a in inst.j["args"] if isinstance(a, int)][-1]

    def f(v, pc):
        v = whole(v)
        n = seq_len(v)
        a, b = range_of(ip, st, args[1], n, tid)
        bad = AND(pc, OR(ult(b, a), ult(n, b)))
        ip.record("range out of bounds", span, bad)
        st.pc = AND(st.pc, NOT(bad))
        return seq_cat(v, seq_slice(v, a, sub(b, a)[0], AND(pc, NOT(bad))), AND(pc, NOT(bad)))
    vec_modify(ip, st, args[0], f)
    return UNIT


@model("std::hint::must_use", "std::hint::black_box")
def m_id(ip, st, inst, args, dt, span):
    return args[0]


@model_re(r".*::precondition_check")
def m_pre(ip, st, inst, args, dt, span):
    return UNIT


# ---- cryptographic primitives: opaque functions of the bytes they cover

def digest_bytes(ip, st, name, args, n):
    bits = ip.seq_fn(st, name, args, 8 * n)
    return Agg(BV(bits.b[8 * i:8 * i + 8]) for i in range(n))


@model("<T as hmac::Mac>::new_from_slice", "<hmac::Hmac<D> as hmac::digest::KeyInit>::new_from_slice")
def m_mac_new(ip, st, inst, args, dt, span):
    t = inst.name
    alg = "hmac-sha1" if re.search(r"[Ss]ha1", t) else "hmac(%s)" % t
    return ok(Mac(alg, ip.slice_seq(st, args[0]), seq_of(())))


@model("<T as hmac::Mac>::update", "<hmac::Hmac<D> as hmac::digest::Update>::update")
def m_mac_update(ip, st, inst, args, dt, span):
    m = ip.deref_read(st, args[0])
    s = ip.slice_seq(st, args[1])
    ip.deref_write(st, args[0], Mac(m.alg, m.key, seq_cat(m.msg, s, st.pc)))
    return UNIT


@model("<T as hmac::Mac>::chain_update")
def m_mac_chain(ip, st, inst, args, dt, span):
    p = args[1]
    if type(p) is not Ptr or p.alts[0][3] is None:
        raise Undecided("chain_update")
    return Mac(args[0].alg, args[0].key, seq_cat(args[0].msg, ip.slice_seq(st, p), st.pc))


@model("<T as hmac::Mac>::finalize")
def m_mac_final(ip, st, inst, args, dt, span):
    m = args[0]
    return digest_bytes(ip, st, m.alg, [m.key, m.msg], 20)


@model("<T as hmac::Mac>::verify_slice", "<T as hmac::Mac>::verify")
def m_mac_verify(ip, st, inst, args, dt, span):
    m = args[0]
    d = digest_bytes(ip, st, m.alg, [m.key, m.msg], 20)
    tag = args[1]
    if type(tag) is Ptr:
        tag = ip.slice_seq(st, tag) if tag.alts[0][3] is not None else ip.deref_read(st, tag)
    c = eq_cond(ip, st, d, tag)
    return result(simp(ip, st, c), UNIT, UNIT)


@model_re(r"hmac::digest::CtOutput::<T>::into_bytes|hmac::digest::generic_array::impls::<impl std::convert::From<.*> for \[T; \d+\]>::from|<hmac::digest::generic_array::GenericArray<.*> as std::convert::Into<.*>>::into")
def m_into_same(ip, st, inst, args, dt, span):
    return args[0]


@model_re(r"<hmac::digest::generic_array::GenericArray<T, N> as std::ops::Deref>::deref|hmac::digest::generic_array::GenericArray::<T, N>::as_slice|<hmac::digest::generic_array::GenericArray<T, N> as std::convert::AsRef<\[T\]>>::as_ref")
def m_ga_slice(ip, st, inst, args, dt, span):
    out = []
    for g, o, path, m in args[0].alts:
        v = ip.read_path(ip.load_root(st, o), path, AND(g, st.pc))
        out.append((g, o, path, (k64(0), k64(len(v.v)))))
    return Ptr(out)


@model("md5::compute")
def m_md5(ip, st, inst, args, dt, span):
    v = args[0]
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    if type(v) is Ptr and v.alts[0][3] is not None:
        s = ip.slice_seq(st, v)
    elif type(v) is Ptr:
        x = ip.deref_read(st, v)
        while type(x) is Ptr:
            x = ip.slice_seq(st, x) if x.alts[0][3] is not None else ip.deref_read(st, x)
        s = whole(ip.as_seq(x))
    else:
        s = whole(ip.as_seq(v))
    d = digest_bytes(ip, st, "md5", [s], 16)
    return Agg((d,))


def crc_alg(ip, st, v):
    """The parameters of a CRC from the value that selects it."""
    if type(v) is Mac:
        return v.alg
    if type(v) is Ptr:
        return crc_alg(ip, st, ip.deref_read(st, v))
    if isinstance(v, Agg):
        # Algorithm { width, poly, init, refin, refout, xorout, check, residue }, or Crc { algorithm, data }
        if len(v.v) == 8 and all(type(x) is BV and x.c is not None for x in v.v[:6]):
            return ("crc",) + tuple(x.c for x in v.v[:6])
        return crc_alg(ip, st, v.v[0])
    raise Undecided("CRC algorithm")


@model("crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::new")
def m_crc_new(ip, st, inst, args, dt, span):
    return Mac(crc_alg(ip, st, args[0]), None, seq_of(()))


@model("crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::checksum")
def m_crc(ip, st, inst, args, dt, span):
    alg = crc_alg(ip, st, args[0])
    return ip.seq_fn(st, str(alg), [ip.slice_seq(st, args[1])], 32)


@model_re(r"crc::crc32::<impl crc::Crc<u32, crc::Table<L>>>::digest(_with_initial)?")
def m_crc_digest(ip, st, inst, args, dt, span):
    if inst.dfn.endswith("initial"):
        raise Undecided("CRC with an initial value")
    return Mac(crc_alg(ip, st, args[0]), None, seq_of(()))


@model_re(r"crc::crc32::<impl crc::Digest<'a, u32, crc::Table<L>>>::update")
def m_crc_update(ip, st, inst, args, dt, span):
    return m_mac_update(ip, st, inst, args, dt, span)


@model_re(r"crc::crc32::<impl crc::Digest<'a, u32, crc::Table<L>>>::finalize")
def m_crc_final(ip, st, inst, args, dt, span):
    return ip.seq_fn(st, str(args[0].alg), [args[0].msg], 32)


# ---- bytecodec: one buffer that is always large enough stands for the 1 KiB chunks

BIG = 1 << 24


@model("bytecodec::io::IoEncodeExt::encode_all")
def m_encode_all(ip, st, inst, args, dt, span):
    body = inst.body
    if body is None:
        raise Undecided("encode_all")
    enc = idle = write = None
    for st_, t in body["blocks"]:
        if t[0] == "call" and isinstance(t[1], int):
            i = ip.P.insts[t[1]]
            if i.assoc == "encode":
                enc = i
            elif i.assoc == "is_idle":
                idle = i
            elif i.assoc == "write_all":
                write = i
    if enc is None or idle is None or write is None:
        raise Undecided("encode_all changed")
    buf = ip.slice_ptr(st, Seq(((1, (("R", const(0, 8), k64(BIG)),)),)), k64(BIG))
    wp = ip.obj(st, args[1])
    eos = Agg((Enum({1: 1}, {0: (), 1: (), 2: ()}),))
    eos = ip.eos(False)
    def recv(i):
        # The receiver as this callee wants it: through one more reference, or not.
        t = ip.P.types[i.body["locals"][1]]
        t2 = ip.P.types[t.j["elem"]] if t.k == "ref" else None
        if t2 is not None and t2.k == "ref":
            return ip.obj(st, args[0])
        return args[0]
    s2, r = ip.call_inst(st, enc, [recv(enc), buf, eos], enc.body["locals"][0], span)
    if s2 is None:
        st.pc = 0
        return UNDEF
    good = r.g.get(0, 0)
    q = AND(good, st.pc)
    if q == 0:
        return err(r.p[1][0])
    save = st.fork(AND(st.pc, NOT(good)))
    st.pc = q
    n = r.p[0][0]
    part = sub_slice(ip, st, buf, lambda k: k64(0), lambda k: n, span)
    s2, w = ip.call_inst(st, write, [wp, part], write.body["locals"][0] if write.body else None, span)
    s2, idl = ip.call_inst(st, idle, [recv(idle)], idle.body["locals"][0], span)
    notidle = AND(st.pc, NOT(idl.b[0]))
    if notidle:
        raise Undecided("encode_all needs a second round")
    from interp import merge_states
    if save.pc:
        j = merge_states(save, st.fork(st.pc))
        st.pc, st.top = j.pc, j.top
        return result(simp(ip, st, good), UNIT, r.p[1][0])
    return ok(UNIT)


# ---- intrinsics

@intrinsic("bswap")
def i_bswap(ip, st, inst, args, dt, span):
    a = args[0]
    return BV(sum((a.b[i:i + 8] for i in range(a.w - 8, -1, -8)), ()))


@intrinsic("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume")
def i_nop(ip, st, inst, args, dt, span):
    return UNIT


@intrinsic("likely", "unlikely", "black_box")
def i_id(ip, st, inst, args, dt, span):
    return args[0]


@intrinsic("read_via_copy", "volatile_load")
def i_read(ip, st, inst, args, dt, span):
    return ip.deref_read(st, args[0])


@intrinsic("write_via_move")
def i_write(ip, st, inst, args, dt, span):
    ip.deref_write(st, args[0], args[1])
    return UNIT


@intrinsic("transmute", "transmute_unchecked")
def i_transmute(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    return ip.transmute(args[0], ta[0], ta[1])


@intrinsic("raw_eq")
def i_raw_eq(ip, st, inst, args, dt, span):
    return bool_bv(eq_cond(ip, st, ip.deref_read(st, args[0]), ip.deref_read(st, args[1])))


@intrinsic("ctpop")
def i_ctpop(ip, st, inst, args, dt, span):
    a = args[0]
    r = const(0, 32)
    for x in a.b:
        r, _ = add(r, BV((x,) + (0,) * 31))
    return r


@intrinsic("rotate_left", "rotate_right")
def i_rot(ip, st, inst, args, dt, span):
    a, n = args[0], args[1]
    if n.c is None:
        raise Undecided("rotation by an unknown amount")
    k = n.c % a.w
    if "right" in inst.j["intrinsic"]:
        k = (a.w - k) % a.w
    return BV(a.b[a.w - k:] + a.b[:a.w - k])


@intrinsic("saturating_sub")
def i_satsub(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    if ip.P.types[ta[0]].signed:
        raise Undecided("signed saturation")
    r, b = sub(args[0], args[1])
    return ite_bv(b, const(0, r.w), r)


@intrinsic("saturating_add")
def i_satadd(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    if ip.P.types[ta[0]].signed:
        raise Undecided("signed saturation")
    r, c = add(args[0], args[1])
    return ite_bv(c, const((1 << r.w) - 1, r.w), r)


@intrinsic("wrapping_add", "unchecked_add")
def i_wadd(ip, st, inst, args, dt, span):
    return add(args[0], args[1])[0]


@intrinsic("wrapping_sub", "unchecked_sub")
def i_wsub(ip, st, inst, args, dt, span):
    return sub(args[0], args[1])[0]


@intrinsic("wrapping_mul", "unchecked_mul")
def i_wmul(ip, st, inst, args, dt, span):
    return mul(args[0], args[1])[0]


@intrinsic("unchecked_shl")
def i_shl(ip, st, inst, args, dt, span):
    return shift(args[0], args[1], "shl")


@intrinsic("unchecked_shr")
def i_shr(ip, st, inst, args, dt, span):
    return shift(args[0], args[1], "lshr")


@intrinsic("exact_div", "unchecked_div")
def i_div(ip, st, inst, args, dt, span):
    return udivrem(args[0], args[1])[0]


@intrinsic("unchecked_rem")
def i_rem(ip, st, inst, args, dt, span):
    return udivrem(args[0], args[1])[1]


@intrinsic("add_with_overflow")
def i_addo(ip, st, inst, args, dt, span):
    return ip.binop("Add", args[0], args[1], False, True)


@intrinsic("sub_with_overflow")
def i_subo(ip, st, inst, args, dt, span):
    return ip.binop("Sub", args[0], args[1], False, True)


@intrinsic("mul_with_overflow")
def i_mulo(ip, st, inst, args, dt, span):
    return ip.binop("Mul", args[0], args[1], False, True)


@intrinsic("discriminant_value")
def i_discr(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    return ip.discr_bv(ip.deref_read(st, args[0]), ta[0], dt)


@intrinsic("size_of", "min_align_of", "align_of", "pref_align_of")
def i_size(ip, st, inst, args, dt, span):
    ta = [a for a in inst.j["args"] if isinstance(a, int)]
    if inst.j["intrinsic"] != "size_of":
        return k64(8)
    return k64(ip.size_of(ta[0]))


@intrinsic("needs_drop")
def i_needs_drop(ip, st, inst, args, dt, span):
    return const(0, 1)


@intrinsic("select_unpredictable")
def i_select(ip, st, inst, args, dt, span):
    return merge(args[0].b[0], args[1], args[2])


@intrinsic("ctlz", "cttz")
def i_ctz(ip, st, inst, args, dt, span):
    a = args[0]
    r = const(a.w, 32)
    rng = range(a.w) if "lz" in inst.j["intrinsic"] else range(a.w - 1, -1, -1)
    for i in rng:
        r = ite_bv(a.b[i], const(a.w - 1 - i if "lz" in inst.j["intrinsic"] else i, 32), r)
    return r


@model("<u8 as core::slice::cmp::SliceOrd>::compare", "<A as core::slice::cmp::SliceOrd>::compare")
def m_bytes_cmp(ip, st, inst, args, dt, span):
    """Lexicographic order of byte strings whose bytes are known one by one."""
    a, b = (ip.slice_seq(st, x) if x.alts[0][3] is not None else ip.as_seq(ip.deref_read(st, x)) for x in args)
    less = more = 0
    for g, sa in whole(a).alts:
        for h, sb in whole(b).alts:
            p = AND(AND(g, h), st.pc)
            if not p:
                continue
            xs, ys = ([x for q in t for x in (q[1] if q[0] == "L" else [None])] for t in (sa, sb))
            if any(type(x) is not BV or x.w != 8 for x in xs + ys):
                return NotImplemented
            lt, gt = const(len(xs) < len(ys), 1).b[0], const(len(xs) > len(ys), 1).b[0]
            for x, y in reversed(list(zip(xs, ys))):
                l, m = ult(x, y), ult(y, x)
                lt, gt = OR(l, AND(NOT(m), lt)), OR(m, AND(NOT(l), gt))
            less, more = OR(less, AND(p, lt)), OR(more, AND(p, gt))
    return Enum({0: less, 1: NOT(OR(less, more)), 2: more}, {0: (), 1: (), 2: ()})


@intrinsic("compare_bytes")
def i_cmp_bytes(ip, st, inst, args, dt, span):
    raise Undecided("compare_bytes")


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "<std::string::String as std::ops::Index<I>>::index", "<std::string::String as std::ops::IndexMut<I>>::index_mut")
def m_vec_index(ip, st, inst, args, dt, span):
    if inst.body is None:
        return NotImplemented
    name = "<%s as std::slice::SliceIndex<[T]>>::index" % ip.P.types[inst.body["locals"][2]].name
    for rx, f in RX:
        if rx.match(name):
            return f(ip, st, inst, [args[1], vec_slice_ptr(ip, st, args[0])], dt, span)
    return NotImplemented
