"""Loading of the typed-tree dumps and lookups over them."""
import json
import os


class Prog:
    def __init__(self, outdir, crates=("bulletproofs", "relations")):
        self.fns = {}
        self.types = {}
        self.impls = []
        self.autos = []
        self.adts = {}
        self.cfg = {}
        self.errs = []
        for c in crates:
            p = os.path.join(outdir, c + ".json")
            d = json.load(open(p))
            self.types[c] = d["types"]
            self.cfg[c] = d["cfg"]
            self.errs += d["errs"]
            for f in d["fns"]:
                f["crate"] = c
                self.fns[f["p"]] = f
            for i in d["impls"]:
                i["crate"] = c
                self.impls.append(i)
            for a in d["autos"]:
                a["crate"] = c
                self.autos.append(a)
            for a in d["adts"]:
                if a["p"] not in self.adts or a["local"]:
                    a["crate"] = c
                    self.adts[a["p"]] = a
        import terms
        names = {}
        for a in self.adts.values():
            if a["k"] == "enum":
                for v in a["v"]:
                    names.setdefault(v[0], []).append(a)
        for a in self.adts.values():
            if a["k"] == "enum" and a.get("local") and len(a["v"]) > 2:
                last = a["v"][-1][0]
                if len(names[last]) == 1:
                    terms.LASTV[last] = tuple(v[0] for v in a["v"][:-1])
        # children closures share the parent's file
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f["name"], []).append(f)

    def ty(self, crate, t):
        return self.types[crate][t]

    def tys(self, crate, t):
        return self.types[crate][t]["s"]

    def is_test(self, f):
        return "::tests::" in f["p"] or "::test::" in f["p"]

    def find(self, name, self_adt=None, trait=None, crate=None, suffix=None, required=True):
        """functions by role: name, Self type, implemented trait"""
        out = []
        for f in self.byname.get(name, []):
            if crate and f["crate"] != crate:
                continue
            if self.is_test(f) or f["kind"] == "Closure":
                continue
            if self_adt is not None:
                if "iself" not in f:
                    continue
                t = self.ty(f["crate"], f["iself"])
                if t.get("p", "").split("::")[-1] != self_adt:
                    continue
            elif self_adt is None and "iself" in f and suffix is None and trait is None:
                continue
            if trait is not None and (f.get("itrait") or "").split("::")[-1] != trait:
                continue
            if trait is None and self_adt is not None and f.get("itrait"):
                continue
            if suffix and not f["p"].endswith(suffix):
                continue
            out.append(f)
        return out

    def fn1(self, *a, **k):
        r = self.find(*a, **k)
        if len(r) != 1:
            raise Anchor("expected exactly one function for role %s %s, found %d" % (a, k, len(r)))
        return r[0]

    def self_adt(self, f):
        if "iself" not in f:
            return None
        return self.ty(f["crate"], f["iself"]).get("p")

    def structdef(self, path):
        return self.adts.get(path)


class Anchor(Exception):
    """a construct a rule is anchored on is missing"""
