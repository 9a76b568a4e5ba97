"""The dumped program: types, instances, loop structure."""
import json


class Ty:
    __slots__ = ("id", "name", "k", "j", "bits", "signed", "_hasdrop")

    def __init__(self, i, j):
        self.id = i
        self.j = j
        self.name = j["name"]
        self.k = j["k"]
        if self.k == "other" and self.name.startswith("pattern_type!("):
            base = self.name[len("pattern_type!("):].split(" ")[0]
            if base[0] in "ui" and (base[1:].isdigit() or base[1:] == "size"):
                # A restricted integer: the same bits.
                self.k = "uint" if base[0] == "u" else "int"
                self.j = dict(j, k=self.k, bits=64 if base[1:] == "size" else int(base[1:]))
        self.bits = {"bool": 1, "char": 32}.get(self.k, self.j.get("bits"))
        self.signed = self.k == "int"
        self._hasdrop = None

    def __repr__(self):
        return self.name


class Inst:
    __slots__ = ("id", "name", "dfn", "krate", "local", "j", "body", "order", "assoc", "closure")

    def __init__(self, i, j):
        self.id = i
        self.j = j
        self.name = j["name"]
        self.dfn = j["def"].replace("stun_codec::bytecodec::", "bytecodec::").replace("stun_codec::trackable::", "trackable::")
        self.krate = j["krate"]
        self.local = j["local"]
        self.body = j.get("body")
        self.order = None
        self.assoc = j.get("assoc")
        self.closure = self.dfn.rsplit("::", 1)[-1].startswith("{closure")

    def __repr__(self):
        return self.name


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [a[1] for a in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [] if term[4] is None else [term[4]]
    if k == "assert":
        return [term[4]]
    return []


def wto(body):
    """Position of every block in a weak topological order: a loop is contiguous, its head first."""
    blocks = body["blocks"]
    n = len(blocks)
    sc = [succs(b[1]) for b in blocks]
    pos = {}
    counter = [0]

    def component(nodes, head):
        # Strongly connected components of `nodes`, in topological order, with edges into `head` cut.
        index, low, st, on, out = {}, {}, [], set(), []
        cnt = [0]
        for root in nodes:
            if root in index:
                continue
            work = [(root, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    index[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                adv = False
                es = [x for x in sc[v] if x in nodes and x != head]
                while i < len(es):
                    u = es[i]
                    i += 1
                    if u not in index:
                        work.append((v, i))
                        work.append((u, 0))
                        adv = True
                        break
                    if u in on:
                        low[v] = min(low[v], index[u])
                if adv:
                    continue
                if low[v] == index[v]:
                    c = []
                    while True:
                        u = st.pop()
                        on.discard(u)
                        c.append(u)
                        if u == v:
                            break
                    out.append(c)
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[v])
        out.reverse()
        return out

    def place(nodes, head):
        for c in component(nodes, head):
            if len(c) == 1 and c[0] not in sc[c[0]]:
                pos[c[0]] = counter[0]
                counter[0] += 1
                continue
            cs = set(c)
            # The head: the block entered from outside.
            heads = [b for b in c if b == 0 or any(b in sc[p] for p in range(n) if p not in cs)]
            h = heads[0] if heads else c[0]
            pos[h] = counter[0]
            counter[0] += 1
            rest = cs - {h}
            if rest:
                place(rest, h)

    reach, stack = set(), [0]
    while stack:
        b = stack.pop()
        if b in reach:
            continue
        reach.add(b)
        stack.extend(sc[b])
    place(reach, None)
    return pos


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = [Ty(i, j) for i, j in enumerate(d["types"])]
        self.insts = [Inst(i, j) for i, j in enumerate(d["insts"])]
        self.allocs = d["allocs"]
        self.roots = d["roots"]
        self.consts = d["consts"]
        self.assoc_consts = {c["def"]: int(c["value"]) for c in d.get("assoc_consts", ())}
        self.impls = d["impls"]
        self.skipped = d["skipped"]
        self.by_name = {}
        for i in self.insts:
            self.by_name.setdefault(i.name, i)
        self.ty_by_name = {}
        for t in self.types:
            self.ty_by_name.setdefault(t.name, t)
        self.impl_of = {}       # (trait last segment, self type name) -> impl
        for m in self.impls:
            self.impl_of[(m["trait"].split("::")[-1], m["name"])] = m
        self.methods = {}       # (assoc name, first type arg) -> inst list
        self.drops = {}
        for i in self.insts:
            if i.assoc:
                self.methods.setdefault(i.assoc, []).append(i)
            if i.local and i.j.get("trait", "").endswith("ops::Drop") and i.body:
                t = self.types[i.body["locals"][1]]
                self.drops[t.j.get("elem")] = i

    def order(self, inst):
        if inst.order is None:
            inst.order = wto(inst.body)
        return inst.order

    def find(self, dfn, ty=None, pred=None):
        r = [i for i in self.insts if i.dfn == dfn and (pred is None or pred(i))]
        return r

    def has_drop(self, tid):
        """Does dropping a value of this type run code of the crate?"""
        t = self.types[tid]
        if t._hasdrop is not None:
            return t._hasdrop
        t._hasdrop = False
        r = tid in self.drops
        if not r:
            if t.k == "adt":
                r = any(self.has_drop(f[1]) for v in t.j["variants"] for f in v["fields"])
                if t.j["def"] == "std::boxed::Box":
                    r = self.has_drop(t.j["args"][0])
            elif t.k == "tuple":
                r = any(self.has_drop(e) for e in t.j["elems"])
            elif t.k == "closure":
                r = any(self.has_drop(e) for e in t.j["upvars"])
            elif t.k == "array":
                r = self.has_drop(t.j["elem"])
        t._hasdrop = r
        return r
