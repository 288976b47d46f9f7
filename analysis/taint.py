"""Interprocedural secret-flow analysis over MIR.

A value is raw-secret when it comes out of the Secret wrapper (expose_secret) or is computed from such a value. Putting it
back into a wrapper ends the flow; a declared declassifier (an operation the protocols prescribe) ends it too. The analysis
is flow-insensitive inside a function, context-sensitive in which arguments and captures are raw and in the type arguments.
What is raw is known by component: a path of tuple positions, through references, containers and optional values."""
import re
from .roots import self_type
from .api import KNOWN
from .calls import owner

WRAPPERS = {"tools::secret::Secret", "secrecy::SecretBox"}
CARRIERS = {
    "alloc::boxed::Box", "alloc::vec::Vec", "core::option::Option", "core::result::Result", "core::ops::ControlFlow",
    "alloc::collections::BTreeMap", "alloc::collections::btree_map::BTreeMap", "core::ops::control_flow::ControlFlow", "alloc::rc::Rc", "alloc::sync::Arc",
}
# results of these on a secret value are public: sizes of the representation
SIZES = {"bits_precision", "nlimbs", "len", "is_empty", "bytes_precision", "size_hint", "capacity", "type_id", "type_name"}
EXPOSE = {"expose_secret", "expose_secret_mut"}


NO = frozenset()
WHOLE = frozenset([()])


def pre(i, rs):
    return frozenset((i,) + r for r in rs)


class Summary:
    __slots__ = ("ret", "muts", "cloargs", "sinks", "path", "touched", "sites")

    def __init__(self):
        self.ret, self.muts, self.cloargs, self.sinks, self.path, self.touched, self.sites = NO, frozenset(), False, [], "", False, 0


class Sink:
    __slots__ = ("kind", "fn", "sp", "what", "bb")

    def __init__(self, kind, fn, sp, what, bb):
        self.kind, self.fn, self.sp, self.what, self.bb = kind, fn, sp, what, bb


class Taint:
    def __init__(self, F, declass, rawfields=(), published=(), pubdisc=(), pubfields=()):
        """declass(path): the function's public result is a prescribed declassification; published: functions that expose a
        value which is public from then on; rawfields: (type, field) that hold a secret outside of the wrapper"""
        self.published = set(published)
        # decoders of the wrapper: what they read is secret already
        self.decoders = {f["path"] for f in F.fns if re.match(r"<tools::secret::Secret<.*> as serde::Deserialize", f["path"])}
        self.pubfields = set(pubfields)  # (type, field) whose contents are public by prescription
        self.pubdisc = set(pubdisc)  # functions that publish whether they have a result
        self.F, self.declass = F, declass
        self.rawfields = set(rawfields)
        self.memo = {}
        self.holds = {}
        self._prot = {}
        self.visited = set()
        self.calls_analysed = 0
        self._find_holders()
        self._find_ctors()

    def _find_ctors(self):
        """Closures that make the value of a wrapper: what they draw from a generator is secret already."""
        self.ctors = set()
        for f in self.F.fns:
            if not f.get("body"):
                continue
            clo = {}
            for bl in f["body"]["blocks"]:
                for st in bl[0]:
                    if st[1]["k"] == "agg" and st[1].get("ak") == "closure" and not st[0][1]:
                        clo[st[0][0]] = st[1]["key"]
            for bl in f["body"]["blocks"]:
                t = bl[1]
                if t["k"] == "call":
                    fk = t["f"].get("k")
                    fn = fk.get("fn") if isinstance(fk, dict) else None
                    if fn and fn["path"].rsplit("::", 1)[-1] in ("init_with", "try_init_with", "init_with_mut") and re.search(r"tools::secret::|secrecy::", fn["path"]):
                        for a in t["args"]:
                            src = a.get("m") or a.get("c")
                            if src and src[0] in clo:
                                self.ctors.add(clo[src[0]])

    # ------------------------------------------------------------ types
    def _find_holders(self):
        F = self.F
        ch = True
        hold = set(WRAPPERS)
        while ch:
            ch = False
            for p, a in F.adts.items():
                if p in hold or "::_::" in p or "__" in p:
                    continue
                for v in a["variants"]:
                    for fl in v["fields"]:
                        if self._mentions(F.ty(fl[1]), hold):
                            hold.add(p)
                            ch = True
        self.holders = hold

    def _mentions(self, t, hold):
        if t.k == "adt" and t.path in hold:
            return True
        if t.k in ("fndef", "closure"):
            return False
        if t.k == "adt" and (t.path or "").endswith("PhantomData"):
            return False
        return any(self._mentions(a, hold) for a in t.args)

    def protected(self, t):
        """Values of this type hold their secrets inside the wrapper only."""
        r = self._prot.get(t.s)
        if r is None:
            r = self._prot[t.s] = self._protected(t)
        return r

    def _protected(self, t):
        if t.k == "adt":
            if t.path in self.holders:
                return True
            if t.path in CARRIERS:
                return any(self.carries(a) for a in t.args) or bool(t.args) and all(self.protected(a) for a in t.args)
            if re.search(r"(PhantomData|Formatter)$", t.path or ""):
                return True
            return False
        if t.k in ("ref", "ptr", "slice", "array"):
            return bool(t.args) and self.protected(t.args[0])
        if t.k == "tuple":
            return all(self.protected(a) or a.s == "()" for a in t.args)
        if t.k in ("fndef", "never"):
            return True
        if t.k == "prim" and t.s in ("()", "!", "str"):
            return True
        return False

    def carries(self, t):
        """There is a wrapper in it."""
        if t.k == "adt":
            return t.path in self.holders or t.path in CARRIERS and any(self.carries(a) for a in t.args)
        if t.k in ("ref", "ptr", "slice", "array", "tuple"):
            return any(self.carries(a) for a in t.args) and self.protected(t)
        return False

    # ------------------------------------------------------------ resolution
    def resolve(self, fn, tsub):
        F = self.F
        targs = [F.sub(F.ty(a), tsub) for a in fn.get("args", [])]
        path, trait = fn["path"], fn.get("trait")
        key = rargs = None
        rpath = None
        if fn.get("rkey"):
            key = fn["rkey"] if fn.get("rlocal") else None
            rargs = [F.sub(F.ty(a), tsub) for a in fn.get("rargs", [])]
            rpath = fn.get("rpath")
        elif trait is None:
            key = fn["key"] if fn.get("local") else None
            rargs = targs
            rpath = path
        if trait is not None and key is None and targs:
            n = 1
            ims = F.impl_by_trait.get(trait)
            if ims:
                n = len(ims[0]["targs"])
            r = F.find_impl(trait, targs[:n])
            mname = path.split("::")[-1]
            if r is not None:
                im, m = r
                for nm, k, _ in im["items"]:
                    if nm == mname and k in F.by_key and F.by_key[k].get("body"):
                        f2 = F.by_key[k]
                        own = [g for g in (f2.get("generics") or []) if g not in m]
                        mm = dict(m)
                        for g, a in zip(own, targs[n:]):
                            mm[g] = a
                        return k, mm, f2["path"], targs
                if fn["key"] in F.by_key and F.by_key[fn["key"]].get("body"):
                    return fn["key"], targs, path, targs
            elif fn.get("local") and fn["key"] in F.by_key and F.by_key[fn["key"]].get("body") and trait in F.traits:
                return fn["key"], targs, path, targs
        return key, rargs, rpath or path, targs

    def bind(self, f, rargs):
        if isinstance(rargs, dict):
            return rargs
        gs = f.get("generics") or []
        ra = [a for a in (rargs or [])]
        return {g: a for g, a in zip(gs, ra)}

    # ------------------------------------------------------------ analysis of one body
    def run(self, f, tp=frozenset(), caps=frozenset(), tsub=None, depth=0):
        tsub = tsub or {}
        key = (f["key"], tp, caps, tuple(sorted((k, v.s) for k, v in tsub.items())))
        s = self.memo.get(key)
        if s is not None:
            return s
        s = self.memo[key] = Summary()
        s.path = f["path"]
        if depth > 60 or not f.get("body"):
            s.ret = WHOLE if tp or caps else NO
            return s
        self.visited.add(owner(f["path"]))
        for _ in range(4):
            before = (s.ret, s.muts, s.cloargs)
            Body(self, f, tp, caps, tsub, depth).analyse(s)
            if before == (s.ret, s.muts, s.cloargs):
                break
        return s


class Body:
    def __init__(self, an, f, tp, caps, tsub, depth):
        self.an, self.f, self.tsub, self.depth = an, f, tsub, depth
        self.F = an.F
        b = f["body"]
        self.b = b
        self.lty = [self.F.sub(self.F.ty(l[0]), tsub) for l in b["locals"]]
        self.is_clo = "{closure" in f["path"].rsplit("::", 1)[-1]
        self.caps = caps
        self.tainted = {}
        for i, r in tp:
            if not self.inside(self.lty[i], r):
                self.tainted.setdefault(i, set()).add(r)
        if owner(f["path"]) in an.decoders:
            for i, t in enumerate(self.lty):
                if i and t.k == "adt" and t.path in ("alloc::boxed::Box", "alloc::vec::Vec") and not an.protected(t):
                    self.tainted[i] = {()}
        self.links = {}
        self.clo = {}  # local -> {(key, tainted captures)}
        self.alias = {}
        self.changed = True
        self.pubd = set()
        self.nsites = 0
        self.tp = {i for i, r in tp}
        self.argc = b["argc"]

    # place types
    def pty(self, pl):
        """type of a place (or None when unknown)"""
        t = self.lty[pl[0]]
        var = None
        for p in pl[1]:
            if p == "*":
                if t.k in ("ref", "ptr"):
                    t = t.args[0]
                elif t.k == "adt" and t.path == "alloc::boxed::Box":
                    t = t.args[0]
                else:
                    return None
            elif isinstance(p, dict) and "dc" in p:
                var = p["dc"]
            elif isinstance(p, dict) and "f" in p:
                if t.k == "tuple":
                    t = t.args[p["i"]] if p["i"] < len(t.args) else None
                elif t.k == "adt":
                    a = self.F.adts.get(t.path)
                    if a:
                        fl = a["variants"][var or 0]["fields"][p["i"]]
                        gs = a.get("generics")
                        ft = self.F.ty(fl[1])
                        at = self.F.ty(a["ty"])
                        m = {x.path: y for x, y in zip(at.args, t.args) if x.k == "param"}
                        t = self.F.sub(ft, m)
                    elif t.path in ("core::option::Option", "core::result::Result", "core::ops::ControlFlow", "core::ops::control_flow::ControlFlow") and len(t.args) > (var or 0):
                        if t.path.endswith("Option"):
                            t = t.args[0]
                        elif t.path.endswith("Result"):
                            t = t.args[var or 0]
                        else:  # ControlFlow<B, C>: Continue = 0 -> C
                            t = t.args[1 - (var or 0)]
                    else:
                        return None
                elif t.k == "closure":
                    return None
                else:
                    return None
                var = None
            elif isinstance(p, dict) and ("ix" in p or "cix" in p):
                if t.k in ("slice", "array") and t.args:
                    t = t.args[0]
                else:
                    return None
            else:
                return None
            if t is None:
                return None
        return t

    def inside(self, t, r):
        """the component of a value of this type is protected"""
        for k in r:
            if self.an.protected(t):
                return True
            while t.k in ("ref", "ptr", "slice", "array") or t.k == "adt" and t.path in CARRIERS and len(t.args) == 1:
                t = t.args[0]
            if t.k != "tuple" or k >= len(t.args):
                return False
            t = t.args[k]
        return self.an.protected(t)

    def path(self, pl):
        """the component a place is, and whether it is just that"""
        r = []
        for n, p in enumerate(pl[1]):
            if isinstance(p, dict) and "f" in p:
                t = self.pty([pl[0], pl[1][:n]])
                if t is not None and t.k == "adt" and t.path in CARRIERS:
                    continue
                if t is None or t.k != "tuple":
                    # a downcast ends in the adt itself
                    if n and isinstance(pl[1][n - 1], dict) and "dc" in pl[1][n - 1]:
                        t = self.pty([pl[0], pl[1][: n - 1]])
                        if t is not None and t.k == "adt" and t.path in CARRIERS:
                            continue
                    return tuple(r), False
                r.append(p["i"])
        return tuple(r), True

    def read(self, pl):
        """The components of the value of a place that are raw."""
        t = self.pty(pl)
        if t is not None and self.an.protected(t):
            return NO
        l = pl[0]
        if self.is_clo and l == 1:
            for p in pl[1]:
                if isinstance(p, dict) and "f" in p:
                    return WHOLE if p["i"] in self.caps or l in self.tainted else NO
            return WHOLE if self.caps or l in self.tainted else NO
        if l in self.tainted:
            p, exact = self.path(pl)
            res = set()
            for x in self.tainted[l]:
                n = min(len(x), len(p))
                if x[:n] == p[:n]:
                    r = x[n:] if exact else ()
                    if t is None or not self.inside(t, r):
                        res.add(r)
            if res:
                return WHOLE if () in res else frozenset(res)
        # fields of a holder that are raw on purpose
        for i, p in enumerate(pl[1]):
            if isinstance(p, dict) and "f" in p:
                bt = self.pty([l, pl[1][:i]])
                if bt is not None and bt.k == "adt" and (bt.path, p["f"]) in self.an.rawfields:
                    return WHOLE
        return NO

    def op(self, o):
        pl = o.get("m") or o.get("c")
        return self.read(pl) if pl else NO

    def oty(self, o):
        pl = o.get("m") or o.get("c")
        if pl:
            return self.pty(pl)
        k = o.get("k")
        return self.F.sub(self.F.ty(k["t"]), self.tsub) if isinstance(k, dict) and "t" in k else None

    def mark(self, l, r):
        have = self.tainted.get(l, ())
        if any(r[: len(x)] == x for x in have) or self.inside(self.lty[l], r):
            # a write through a reference stored in a protected-typed local does not leave the wrapper
            return
        if len(r) > 4:
            r = r[:4]
        self.tainted[l] = {x for x in have if x[: len(r)] != r} | {r}
        self.changed = True

    def write(self, pl, rs=WHOLE):
        t = self.pty(pl)
        if t is not None and self.an.protected(t):
            return
        if self.is_clo and pl[0] == 1:
            self.mark(1, ())
            return
        p, exact = self.path(pl)
        for r in rs:
            self.mark(pl[0], p + r if exact else p)

    def link(self, a, b, exact=True):
        """raw data written through a reaches the place b"""
        p, ex = self.path(b)
        x = (b[0], p, ex and exact)
        if x not in self.links.setdefault(a, set()):
            self.links[a].add(x)
            self.changed = True

    def setclo(self, l, v):
        s = self.clo.setdefault(l, set())
        if not v <= s:
            s |= v
            self.changed = True

    def analyse(self, s):
        b = self.b
        n = 0
        while self.changed and n < 50:
            n += 1
            self.changed = False
            self.sinks = []
            self.nsites = 0
            for bi, bl in enumerate(b["blocks"]):
                if bl[1].get("cleanup"):
                    continue
                self.bi = bi
                for st in bl[0]:
                    self.stmt(st)
                self.term(bl[1], bi, s)
            for a, bs in list(self.links.items()):
                for dst, p, exact in bs:
                    for r in list(self.tainted.get(a, ())):
                        self.mark(dst, p + r if exact else p)
        s.ret = s.ret | frozenset(r for r in self.tainted.get(0, ()) if not self.inside(self.lty[0], r))
        if () in s.ret:
            s.ret = WHOLE
        muts = set()
        for i in range(1, self.argc + 1):
            t = self.lty[i]
            if i in self.tainted and t.k == "ref" and t.extra and i not in self.tp:
                muts |= {(i, r) for r in self.tainted[i]}
        s.muts = s.muts | frozenset(muts)
        s.sinks = self.sinks
        s.touched = bool(self.tainted) or bool(self.caps)
        s.sites = self.nsites

    def sink(self, kind, sp, what):
        self.sinks.append(Sink(kind, self.f["path"], str(sp), what, self.bi))

    def stmt(self, st):
        pl, rv, sp = st[0], st[1], st[-1]
        k = rv["k"]
        for p in self.indices(pl) + self.rv_indices(rv):
            if p in self.tainted:
                self.sink("index", sp, "a memory access is indexed by a secret-derived value")
        t = NO
        if k == "use":
            t = self.op(rv["a"])
            src = rv["a"].get("m") or rv["a"].get("c")
            if src and not src[1]:
                if src[0] in self.pubd and not pl[1]:
                    self.pubd.add(pl[0])
                if src[0] in self.clo:
                    self.setclo(pl[0], self.clo[src[0]])
                if not pl[1]:
                    ty = self.lty[src[0]]
                    if ty.k == "ref" or self.has_ref(ty):
                        self.link(pl[0], src)
        elif k == "ref":
            t = self.read(rv["p"])
            base = rv["p"][0]
            if base in self.pubd and not rv["p"][1] and not pl[1]:
                self.pubd.add(pl[0])
            if rv.get("mut"):
                bt = self.pty(rv["p"])
                if not (bt is not None and self.an.protected(bt)):
                    self.link(pl[0], rv["p"])
            if base in self.clo:
                self.setclo(pl[0], self.clo[base])
        elif k == "cast" or k == "un":
            a = rv.get("a")
            t = self.op(a) if isinstance(a, dict) else NO
            if k == "un" and rv.get("op") == "PtrMetadata":
                t = NO
            src = a.get("m") or a.get("c") if isinstance(a, dict) else None
            if src and src[0] in self.clo:
                self.setclo(pl[0], self.clo[src[0]])
        elif k == "bin":
            t = WHOLE if self.op(rv["a"]) or self.op(rv["b"]) else NO
        elif k == "discr":
            t = WHOLE if self.read(rv["p"]) and not (not rv["p"][1] and rv["p"][0] in self.pubd) else NO
        elif k == "agg":
            tops = [i for i, o in enumerate(rv["ops"]) if self.op(o)]
            if rv["ak"] == "closure":
                self.setclo(pl[0], {(rv["key"], frozenset(tops))})
                if tops:
                    t = WHOLE
                for o in rv["ops"]:
                    src = o.get("m") or o.get("c")
                    if src:
                        ty = self.pty(src)
                        if ty is not None and ty.k == "ref" and ty.extra and not src[1]:
                            self.link(pl[0], src, False)
            elif rv["ak"] == "adt" and rv["path"] in self.F.adts and tops:
                for i in tops:
                    fl = rv["fields"][i] if i < len(rv["fields"]) else "?"
                    self.sink("store", sp, (rv["path"], fl))
                    if (rv["path"], fl) not in self.an.pubfields:
                        t = WHOLE
            elif rv["ak"] == "tuple":
                for i in tops:
                    t = t | pre(i, self.op(rv["ops"][i]))
            elif tops and (rv["ak"] == "array" or rv["ak"] == "adt" and rv["path"].startswith(tuple(CARRIERS))):
                t = frozenset().union(*[self.op(rv["ops"][i]) for i in tops])
            elif tops:
                t = WHOLE
        elif any(self.op(o) for o in rv.get("ops", []) if isinstance(o, dict)):
            t = WHOLE
        if t:
            self.write(pl, t)

    def has_ref(self, t):
        return t.k == "ref"

    def indices(self, pl):
        return [p["ix"] for p in pl[1] if isinstance(p, dict) and "ix" in p]

    def rv_indices(self, rv):
        out = []
        for x in (rv.get("p"), rv.get("a"), rv.get("b")):
            if isinstance(x, list):
                out += self.indices(x)
            elif isinstance(x, dict):
                pl = x.get("m") or x.get("c")
                if pl:
                    out += self.indices(pl)
        for o in rv.get("ops", []):
            pl = o.get("m") or o.get("c")
            if pl:
                out += self.indices(pl)
        return out

    def diverges(self, bi, seen=None):
        """does every path from this block end in a panic?"""
        seen = seen if seen is not None else set()
        if bi in seen:
            return False
        seen.add(bi)
        t = self.b["blocks"][bi][1]
        k = t["k"]
        if k == "unreachable":
            return True
        if k == "goto":
            return self.diverges(t["t"], seen)
        if k == "drop":
            return self.diverges(t["t"], seen)
        if k == "call":
            return t.get("t") is None or self.diverges(t["t"], seen)
        return False

    def term(self, t, bi, s):
        k = t["k"]
        if k in ("switch", "assert", "call"):
            self.nsites += 1
        if k == "switch":
            if self.op(t["d"]):
                succ = {x[1] for x in t["ts"]} | ({t["else"]} if t.get("else") is not None else set())
                live = [x for x in succ if not self.diverges(x)]
                self.sink("branch" if len(live) > 1 else "abort", t.get("sp"), "the course of the computation depends on a secret-derived value")
        elif k == "assert":
            if self.op(t["c"]):
                self.sink("abort", t.get("sp"), t.get("msg", ""))
        elif k == "drop":
            pl = t["p"] if "p" in t else t.get("d")
            if pl and not pl[1] and pl[0] in self.tainted and not (self.is_clo and pl[0] == 1):
                ty = self.lty[pl[0]]
                if ty.k == "adt" and ty.path in ("alloc::boxed::Box", "alloc::vec::Vec", "alloc::string::String"):
                    self.sink("dropped", t.get("sp"), ty.s)
        elif k == "call":
            self.call(t, s)

    def call(self, t, s):
        an, F = self.an, self.F
        an.calls_analysed += 1
        fk = t["f"].get("k")
        fn = fk.get("fn") if isinstance(fk, dict) else None
        args = t["args"]
        at = [F.sub(F.ty(a), self.tsub) for a in t.get("at", [])]
        traw = [self.op(a) for a in args]
        dty = F.sub(F.ty(t["dt"]), self.tsub) if "dt" in t else self.pty(t["d"])
        closures = []
        for i, a in enumerate(args):
            src = a.get("m") or a.get("c")
            if src and src[0] in self.clo:
                closures.append((i, self.clo[src[0]]))
            elif isinstance(a.get("k"), dict) and "fn" in a["k"]:
                closures.append((i, {("fn", a["k"]["fn"]["path"], id(a["k"]["fn"]))}))
                self.fnrefs = getattr(self, "fnrefs", {})
                self.fnrefs[id(a["k"]["fn"])] = a["k"]["fn"]
        sp = t.get("sp")
        if fn is None:
            if any(traw):
                self.write(t["d"])
            return
        name = fn["path"].rsplit("::", 1)[-1]
        key, rargs, rpath, targs = an.resolve(fn, self.tsub)
        if name in EXPOSE and at and (self.wrapper_arg(at[0]) or key is None):
            if owner(self.f["path"]) not in an.published:
                self.write(t["d"])
            return
        if name in SIZES and key is None:
            return
        if rpath in an.pubdisc and not t["d"][1]:
            self.pubd.add(t["d"][0])
        if name in ("is_some", "is_none") and args and (args[0].get("m") or args[0].get("c") or [None])[0] in self.pubd:
            return
        raw = any(traw)
        self.sinkcall(fn, rpath, name, args, at, traw, sp)
        ret = NO
        muts = set()
        f2 = F.by_key.get(key) if key else None
        # a closure (or function value) called here
        if name in ("call_once", "call", "call_mut") and fn.get("trait", "").startswith("core::ops::"):
            src = args[0].get("m") or args[0].get("c")
            if src and src[0] in self.clo:
                for c in self.clo[src[0]]:
                    ret |= self.closure(c, packed(traw[1:]))
            else:
                if any(traw[1:]):
                    s.cloargs = True
                if raw:
                    ret = WHOLE
        elif f2 is not None and f2.get("body"):
            m = an.bind(f2, rargs)
            tp = frozenset((i + 1, r) for i, rs in enumerate(traw) for r in rs)
            sm = an.run(f2, tp, frozenset(), m, self.depth + 1)
            ret = sm.ret
            muts = {(i - 1, r) for i, r in sm.muts}
            if closures:
                for i, cs in closures:
                    if self.callable(at, i):
                        for c in cs:
                            ret |= self.closure(c, WHOLE if sm.cloargs else NO)
            if an.declass(rpath):
                ret = NO
        else:
            ret = WHOLE if raw else NO
            made = NO
            for i, cs in closures:
                if self.callable(at, i):
                    for c in cs:
                        if name in EACH and i == 1 and len(traw) == 2:
                            r = self.closure(c, pre(0, traw[0]))
                        else:
                            r = self.closure(c, WHOLE if any(r for j, r in enumerate(traw) if j != i) else NO)
                        if r and name in DECIDES:
                            self.sink("branch", sp, rpath)
                        made |= r
            if name in SAME and raw and not any(traw[1:]) and not made:
                ret = traw[0]
            elif name in MAKES and made and fn["path"].startswith(("core::", "alloc::")):
                ret = made
            elif name == "zip" and raw and len(traw) == 2:
                ret = pre(0, traw[0]) | pre(1, traw[1])
            elif name == "enumerate" and raw:
                ret = pre(1, traw[0])
            elif made:
                ret = WHOLE
            if raw:
                muts = {(i, ()) for i, ty in enumerate(at) if ty.k == "ref" and ty.extra}
                if name in FILLS and len(traw) == 2 and not traw[0]:
                    muts = {(0, r) for r in traw[1]}
                elif name in SAME and not any(traw[1:]) and not made:
                    muts = {(0, r) for r in traw[0]} if at and at[0].k == "ref" and at[0].extra else set()
            if an.declass(rpath) or an.declass(fn["path"]):
                ret = NO
        for i, r in muts:
            src = args[i].get("m") or args[i].get("c")
            if src and i < len(at) and not an.protected(at[i]):
                self.write([src[0], []], frozenset([r]) if not src[1] else WHOLE)
        if self.f["key"] in an.ctors and any(re.search(r"RngCore", ty.s) for ty in at):
            ret = WHOLE
        if ret and not (dty is not None and an.protected(dty)):
            self.write(t["d"], ret)
        # the result may borrow from an argument: writes through it reach the argument
        if dty is not None and dty.k == "ref" and dty.extra:
            for i, a in enumerate(args):
                src = a.get("m") or a.get("c")
                if src and i < len(at) and at[i].k == "ref" and at[i].extra and not an.protected(at[i]):
                    self.link(t["d"][0], [src[0], []], name in SAME and not src[1])
        for i, cs in closures:  # adapters keep the closure
            if dty is not None and dty.k == "adt" and any(a.k == "closure" for a in dty.args):
                self.setclo(t["d"][0], set(cs))

    def callable(self, at, i):
        t = at[i] if i < len(at) else None
        while t is not None and t.k == "ref":
            t = t.args[0]
        return t is None or t.k in ("closure", "fndef", "fnptr")

    def wrapper_arg(self, ty):
        while ty.k == "ref":
            ty = ty.args[0]
        return ty.k == "adt" and ty.path in self.an.holders or ty.k == "param"

    def closure(self, c, argraw):
        """argraw: the raw components of the tuple of arguments"""
        an, F = self.an, self.F
        if c[0] == "fn":
            fn = self.fnrefs[c[2]]
            key, rargs, rpath, targs = an.resolve(fn, self.tsub)
            f2 = F.by_key.get(key) if key else None
            if fn["path"].rsplit("::", 1)[-1] in EXPOSE:
                return WHOLE
            if f2 is None or not f2.get("body"):
                return WHOLE if argraw else NO
            r = an.run(f2, self.params(f2, 1, argraw), frozenset(), an.bind(f2, rargs), self.depth + 1)
            return NO if an.declass(rpath) else r.ret
        key, caps = c
        f2 = F.by_key.get(key)
        if f2 is None or not f2.get("body"):
            return WHOLE if argraw or caps else NO
        r = an.run(f2, self.params(f2, 2, argraw), caps, self.tsub, self.depth + 1)
        return r.ret

    def params(self, f2, first, argraw):
        n = f2["body"]["argc"]
        if () in argraw:
            return frozenset((i, ()) for i in range(first, n + 1))
        return frozenset((first + r[0], r[1:]) for r in argraw if first + r[0] <= n)

    def sinkcall(self, fn, rpath, name, args, at, traw, sp):
        if not any(traw):
            return
        p = rpath
        if "fmt" in p and ("Argument" in p or "Formatter" in p or "Debug" in p or "Display" in p) or re.search(r"tracing|log::|std::io", p):
            self.sink("format", sp, p)
        elif re.search(r"serde::(ser::)?Serialize", p) or name.startswith("serialize"):
            self.sink("serialize", sp, p)
        elif re.search(r"tools::hashing::|digest::(Digest|Update)", p):
            self.sink("hash", sp, p)
        base = at[0] if at else None
        while base is not None and base.k == "ref":
            base = base.args[0]
        if name in ("eq", "ne") and base is not None and (base.k in ("slice", "array") or base.path in ("alloc::vec::Vec", "alloc::string::String")):
            self.sink("vartime", sp, p)
        if name in ("index", "index_mut", "get", "get_mut", "nth", "swap", "split_at") and any(traw[1:]):
            self.sink("index", sp, p)
        if name in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and base is not None and (base.k in ("slice", "array", "tuple") or base.path in ("alloc::vec::Vec", "alloc::string::String")):
            self.sink("vartime", sp, p)
        if re.search(r"btree|BTree|hash::map|HashMap|HashSet", p) and len(traw) > 1 and traw[1] and name in ("insert", "get", "get_mut", "remove", "contains", "contains_key", "entry"):
            self.sink("vartime", sp, p)
        if re.search(r"::sort(_unstable)?(_by(_key|_cached_key)?)?$|::binary_search|::(dedup|contains|starts_with|ends_with)$", p) or name in ("max", "min", "clamp") and re.search(r"cmp::|iter::", p):
            self.sink("vartime", sp, p)
        if name in ("then", "then_some") and base is not None and base.k == "prim":
            self.sink("branch", sp, p)
        if name in ("pow_bounded_exp", "pow_bounded") and len(traw) > 2 and traw[2]:
            self.sink("vartime", sp, p + " (bound)")
        if "vartime" in name:
            bad = [i for i, r in enumerate(traw) if r and i not in VT_OK.get(name, ())]
            if bad:
                self.sink("vartime", sp, p)



def packed(raws):
    """the arguments of a closure come as one tuple"""
    return raws[0] if len(raws) == 1 else (WHOLE if any(raws) else NO)


# the result has the components of the first operand, and those only
SAME = {
    "into_iter", "iter", "iter_mut", "next", "next_back", "last", "first", "flatten", "rev", "fuse", "peekable", "skip", "take", "step_by", "nth", "chain", "collect",
    "cloned", "copied", "clone", "to_owned", "to_vec", "into_boxed_slice", "into_vec", "unwrap", "expect", "as_ref", "as_mut", "as_slice", "as_mut_slice", "ok",
    "ok_or", "branch", "from_output", "from_residual", "take", "pop", "unzip", "get", "get_mut", "as_deref", "as_deref_mut", "deref", "deref_mut", "borrow", "borrow_mut",
    "unwrap_unchecked", "split_first", "split_last", "inner", "identity",
}
# the closure gets the elements of the receiver
EACH = {"map", "for_each", "flat_map", "and_then", "filter_map", "find_map", "filter", "find", "any", "all", "position", "is_some_and", "is_ok_and", "inspect"}
# what the result holds comes from the closure
MAKES = {"map", "flat_map", "and_then", "filter_map", "find_map", "then", "from_fn"}
# the second operand is put into the first
FILLS = {"push", "push_back", "extend", "insert"}

# for these only the listed operand positions may be secret (the others decide the course of the computation)
VT_OK = {
    "overflowing_shl_vartime": (0,), "overflowing_shr_vartime": (0,), "shl_vartime": (0,), "shr_vartime": (0,), "wrapping_shl_vartime": (0,), "wrapping_shr_vartime": (0,),
    "bit_vartime": (0,), "rem_vartime": (0,), "div_rem_vartime": (0,), "wrapping_rem_vartime": (0,), "wrapping_div_vartime": (0,), "div_vartime": (0,),
}

# adapters that decide what to do with an element by the result of the closure
DECIDES = {"any", "all", "position", "rposition", "find", "find_map", "filter", "filter_map", "take_while", "skip_while", "map_while", "partition", "retain", "is_some_and", "is_none_or", "is_ok_and", "max_by", "min_by", "max_by_key", "min_by_key", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "try_for_each", "try_fold"}
