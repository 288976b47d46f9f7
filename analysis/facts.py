"""Loading of the fact base dumped by the compiler driver, with type terms and impl lookup."""
import json


class Ty:
    __slots__ = ("k", "path", "args", "extra", "s")

    def __init__(self, k, path, args, extra, s):
        self.k, self.path, self.args, self.extra, self.s = k, path, args, extra, s

    def __repr__(self):
        return self.s

    def __eq__(self, o):
        return isinstance(o, Ty) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


def strip_lt(s):
    return s


class Facts:
    def __init__(self, path):
        self.raw = json.load(open(path))
        self.fns = self.raw["fns"]
        self.by_key = {f["key"]: f for f in self.fns}
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f["path"], []).append(f)
        self.types = self.raw["types"]
        self.adts = {a["path"]: a for a in self.raw["adts"]}
        self.impls = self.raw["impls"]
        self.traits = {t["path"]: t for t in self.raw["traits"]}
        self.impl_by_trait = {}
        for im in self.impls:
            if im.get("trait"):
                self.impl_by_trait.setdefault(im["trait"], []).append(im)
        self._ty = {}
        self.alias_by_s = {}

    # ------------------------------------------------------------ types
    def ty(self, i):
        t = self._ty.get(i)
        if t is not None:
            return t
        if isinstance(i, str):  # const generic argument
            t = Ty("const", i, (), None, i)
        else:
            d = self.types[i]
            args = tuple(self.ty(a) for a in d.get("args", []))
            k = d["k"]
            path = d.get("path") or d.get("name")
            extra = d.get("mut") if k in ("ref", "ptr") else d.get("len") if k == "array" else d.get("key")
            t = Ty(k, path, args, extra, d["s"])
        self._ty[i] = t
        return t

    def sub(self, t, m):
        """Substitute type parameters."""
        if not m:
            return t
        if t.k == "param":
            return m.get(t.path, t)
        if t.k == "const":
            return m.get(t.path, t)
        if not t.args:
            if t.k == "array":
                return t
            return t
        args = tuple(self.sub(a, m) for a in t.args)
        if args == t.args:
            return t
        return self.mk(t, args, m)

    def mk(self, t, args, m=None):
        k = t.k
        j = ", ".join(a.s for a in args)
        if k == "adt":
            s = t.path + ("<" + j + ">" if args else "")
        elif k == "ref":
            s = ("&mut " if t.extra else "&") + j
        elif k == "ptr":
            s = ("*mut " if t.extra else "*const ") + j
        elif k == "tuple":
            s = "(" + j + ("," if len(args) == 1 else "") + ")"
        elif k == "slice":
            s = "[" + j + "]"
        elif k == "array":
            s = "[" + j + "; " + str(t.extra) + "]"
        elif k == "alias":
            # <A as Trait>::X : the path text contains the parameter names
            s = t.s
            for a, b in zip(t.args, args):
                if a.s != b.s:
                    s = s.replace("<" + a.s + " as", "<" + b.s + " as")
            r = Ty(k, s, args, t.extra, s)
            return r
        else:
            s = t.s + "[" + j + "]"
        return Ty(k, t.path, args, t.extra, s)

    def unify(self, pat, t, m):
        """Match impl type pattern (with params) against t."""
        if pat.k == "param":
            if pat.path in m:
                return m[pat.path].s == t.s
            m[pat.path] = t
            return True
        if pat.s == t.s:
            return True
        if pat.k != t.k:
            return pat.k == "alias"
        if pat.k in ("adt",) and pat.path != t.path:
            return False
        if pat.k in ("ref", "ptr") and pat.extra != t.extra:
            return False
        if pat.k in ("prim", "const", "dyn", "closure", "fndef"):
            return pat.s == t.s
        if len(pat.args) != len(t.args):
            return False
        return all(self.unify(a, b, m) for a, b in zip(pat.args, t.args))

    def find_impl(self, trait, targs):
        """targs: [Self, trait args...]; returns (impl, substitution) of a local impl, if exactly one fits."""
        found = []
        for im in self.impl_by_trait.get(trait, []):
            m = {}
            pats = [self.ty(a) for a in im["targs"]]
            if len(pats) <= len(targs) and all(self.unify(p, t, m) for p, t in zip(pats, targs)):
                found.append((im, m))
        if len(found) > 1:
            # prefer the non-blanket
            nb = [x for x in found if self.ty(x[0]["self"]).k != "param"]
            if len(nb) == 1:
                return nb[0]
            return None
        return found[0] if found else None


def head(t):
    while t.k in ("ref",):
        t = t.args[0]
    return t


def _adt_fields(self, path):
    a = self.adts.get(path)
    return [f[0] for f in a["variants"][0]["fields"]] if a else None


Facts.adt_fields = _adt_fields
