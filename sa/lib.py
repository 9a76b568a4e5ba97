"""Shared by the checks: the program under analysis, and how its public interface is found in it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from interp import *


class Anchor(Exception):
    """Something the property is about is not in the program."""


class Lib:
    def __init__(self, path):
        self.P = P = mir.Program(path)
        self.T = P.types
        self.tn = P.ty_by_name
        self.attr_impls = {}
        self.sets = {}
        for m in P.impls:
            if m["trait"].endswith("::Attribute") and m.get("self") is not None:
                self.attr_impls[m["name"]] = m

        self.consts = P.assoc_consts
        traits = {m["trait"] for m in P.impls}
        for i in P.insts:
            # Methods that a trait provides itself.
            if i.assoc and i.j.get("trait") is None and i.dfn and not i.dfn.startswith("<"):
                path = i.dfn.rsplit("::", 1)[0]
                if path in traits or path.split("::", 1)[-1] in traits:
                    i.j["trait"] = path

    # ---- lookup

    def impl_of(self, name):
        """The Attribute implementation of a type, also if the type moved to another module of its RFC."""
        m = self.attr_impls.get(name)
        if m is None:
            head, last = name.split("::")[0], name.split("::")[-1]
            c = [v for k, v in self.attr_impls.items() if k.split("::")[0] == head and k.split("::")[-1] == last]
            if len(c) != 1:
                raise Anchor("attribute " + name)
            m = c[0]
        return m

    def self_ty(self, inst):
        if inst.body is None or inst.body["args"] < 1:
            return None
        t = self.T[inst.body["locals"][1]]
        return t.j.get("elem") if t.k == "ref" else t.id

    def method(self, trait, name, tid, opt=False):
        """The method `name` of trait `trait` (last segment; None: inherent) of type tid."""
        for i in self.P.methods.get(name, ()):
            tr = i.j.get("trait")
            if i.body is None:
                continue
            if trait is None:
                if tr is not None:
                    continue
            elif tr is None or tr.split("<")[0].split("::")[-1] != trait:
                continue
            if self.self_ty(i) == tid:
                return i
        if opt:
            return None
        raise Anchor("method %s::%s of %s" % (trait, name, self.T[tid].name))

    def ctor(self, trait, name, tid, opt=False):
        """An associated function that returns the type (or a Result of it)."""
        for i in self.P.methods.get(name, ()):
            tr = i.j.get("trait")
            if i.body is None or (tr is None) != (trait is None):
                continue
            if trait is not None and tr.split("<")[0].split("::")[-1] != trait:
                continue
            r = self.T[i.body["locals"][0]]
            if r.id == tid or (r.k == "adt" and r.j["def"].endswith("Result") and r.j["args"] and r.j["args"][0] == tid):
                if trait is not None or tid == self.inherent_of(i):
                    return i
        if opt:
            return None
        raise Anchor("function %s::%s of %s" % (trait, name, self.T[tid].name))

    def inherent_of(self, inst):
        """The type an inherent associated function belongs to, by its path."""
        r = self.T[inst.body["locals"][0]]
        if r.k == "adt" and r.j["def"].endswith("Result"):
            r = self.T[r.j["args"][0]]
        return r.id if inst.dfn.rsplit("::", 1)[0].split("<")[0].rstrip(":") == r.j.get("def", r.name).split("<")[0] else None

    def func(self, dfn):
        r = [i for i in self.P.insts if i.dfn == dfn and i.body]
        if not r:
            raise Anchor("function " + dfn)
        return r[0]

    def ty(self, name):
        t = self.tn.get(name)
        if t is None:
            # Moved to another module: the only type of this crate with the same last name and the same RFC.
            head, last = name.split("::")[0], name.split("::")[-1]
            c = [x for x in self.T if x.k == "adt" and x.j.get("krate") == "stun_codec" and not x.j["args"] and x.j["def"].split("::")[-1] == last]
            if len(c) > 1:
                c = [x for x in c if x.j["def"].split("::")[0] == head]
            if len(c) != 1:
                raise Anchor("type " + name)
            t = c[0]
        return t.id

    def field(self, tid, name):
        t = self.T[tid]
        for i, f in enumerate(t.j["variants"][0]["fields"]):
            if f[0] == name:
                return i
        return None

    def interp(self, **kw):
        ip = Interp(self.P, **kw)
        ip.unknown = []
        ip.utf8_srcs = set()
        return ip

    # ---- results

    def res(self, v):
        """(ok guard, ok payload, err guard, err payload) of a Result."""
        if type(v) is not Enum:
            raise Undecided("a result that is %s" % type(v).__name__)
        return v.g.get(0, 0), (v.p.get(0) or (UNIT,))[0], v.g.get(1, 0), (v.p.get(1) or (None,))[0]

    def call(self, ip, st, inst, *args):
        return ip.call_inst(st, inst, list(args))
