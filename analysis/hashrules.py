"""Whole-crate rules about hashing (C07): domain tags, raw hashing confined to its module, self-delimiting hash items."""
import re
from .calls import all_sites, sites, owner
from .obligations import Ob
from .api import KNOWN
from .vf import VF
from .terms import T
from .roots import Roots, self_type, known_leaf, run_vf

H = "tools::hashing::"
NEW_DST = H + "Hasher::<D>::new_with_dst"

# Functions of different types that make one and the same hash on purpose: a value recomputed by a counterpart.
SAME_PURPOSE = [
    {"protocols::key_refresh::Round3", "protocols::key_refresh::KeyRefreshError"},  # mask of the share change sent to a peer
]

# raw operation -> the functions of the original tree that may use it
CONFINED = {
    H + "Chain::chain_raw_bytes": {H + "Chain::chain_bytes"},
    H + "Chain::as_digest_mut": {"<T as " + H + "Hashable>::chain"},
    H + "Hasher::<D>::new": {NEW_DST},
    "digest::Update::update": {"<" + H + "Hasher<D> as " + H + "Chain>::chain_raw_bytes"},
    "digest::Update::chain": set(),
    "digest::ExtendableOutput::finalize_xof": {H + "Hasher::<D>::finalize", H + "Hasher::<D>::finalize_to_reader"},
}
DIGEST_OK = {"curve::bip32::": r"digest::Digest::(new|chain_update|update|finalize)"}

# local types whose own encoding is a raw byte string, and why its length is determined
RAW_OK = {
    "curve::arithmetic::Scalar": "fixed length: the curve's field size",
    "curve::arithmetic::Point": "SEC1 compressed form: the first byte determines the length",
    "uint::public_uint::PublicUint": "fixed length: the integer type's size",
    "tools::hashing::HashOutput": "fixed length: 2*SECURITY_BITS/8 rounded up (C07 contract of finalize)",
    "tools::bitvec::PackedBitVec": "the field `bits` before it determines its length",
    "uint::public_signed::PackedSigned": "fixed length: the integer type's size",
}
PRIMS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "()"}
SEQS = {"alloc::vec::Vec", "alloc::collections::BTreeMap", "alloc::collections::BTreeSet", "alloc::collections::VecDeque", "manul::utils::SerializableMap", "core::option::Option"}
PTRS = {"alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::borrow::Cow"}


class Framing:
    """Is the byte stream hashed for a value of a type self-delimiting (no value's stream is a proper prefix of another's)?"""

    def __init__(self, F):
        self.F = F
        self.memo = {}
        self.assumed = set()
        self.seen_types = set()
        self.byfn = {}
        for s in all_sites(F):
            self.byfn.setdefault(s.fn["path"], []).append(s)

    def bad(self, t):
        if t.s in self.memo:
            return self.memo[t.s]
        self.memo[t.s] = None  # recursive types: assume while deciding
        r = self.decide(t)
        self.memo[t.s] = r
        return r

    def decide(self, t):
        self.seen_types.add(t.s)
        if t.k in ("ref", "ptr"):
            return self.bad(t.args[0])
        if t.s in PRIMS:
            return None
        if t.k in ("slice", "array", "tuple"):
            return next((b for b in map(self.bad, t.args) if b), None)
        if t.k == "param":
            if t.s == "Id" or t.path == "Id":
                self.assumed.add("Id: the caller's party identifier type has a self-delimiting serialization")
                return None
            return f"type parameter {t.s}"
        if t.s in ("str", "alloc::string::String"):
            return f"{t.s} is hashed without its length"
        if t.k == "adt":
            p = t.path
            if p in PTRS:
                return self.bad(t.args[0])
            if p in SEQS:
                return next((b for b in map(self.bad, t.args) if b), None)
            if p == "core::marker::PhantomData":
                return None
            if p in self.F.adts:
                return self.local(t)
            if p.endswith("::Global"):
                return None
        return f"{t.s}: framing not known"

    def local(self, t):
        hit = self.F.find_impl("serde::Serialize", [t]) or self.F.find_impl("serde::ser::Serialize", [t])
        if hit is None:
            return f"{t.s} has no serialization of its own"
        im, m = hit
        fn = self.impl_fn(t.path)
        if fn is None:
            return f"{t.s}: its serialization could not be found"
        raw = False
        fields = 0
        for s in self.byfn.get(fn["path"], []):
            c = s.callee
            if re.search(r"(SliceLike|ArrayLike|BoxedArrayLike|GenericArray014|BorrowedSliceLike)::<.*>::serialize$|Serializer::serialize_(bytes|str)$|Serializer::collect_str$", c):
                raw = True
            elif re.search(r"::(serialize_field|serialize_element|serialize_newtype_struct|serialize_newtype_variant|serialize_some|serialize_value|serialize_key|serialize_entry)$", c) or c.endswith("Serialize::serialize"):
                ts = [x for x in s.targs if not re.search(r"SerializeStruct|SerializeTuple|SerializeSeq|Serializer|^(__S|S)$", x.s)]
                ts = ts[-1:] if c.endswith("serialize") is False else ts[:1]
                for x in ts:
                    fields += 1
                    if "__SerializeWith" in x.s:
                        raw = True
                        continue
                    b = self.bad(self.F.sub(x, m))
                    if b:
                        return f"{t.path} contains {b}"
        if raw and t.path not in RAW_OK:
            return f"{t.path} is hashed as a raw byte string without its length"
        want = self.F.adts[t.path]
        if len(want["variants"]) == 1 and fields and "::_::" in fn["path"]:
            n = len(want["variants"][0]["fields"])
            into = any(s.callee.endswith("Into::into") for s in self.byfn.get(fn["path"], []))
            if fields < n and not into:
                return f"{t.path} is hashed without {n - fields} of its fields"
        return None

    def impl_fn(self, path):
        last = path.rsplit("::", 1)[-1]
        for p in self.byfn:
            m = re.match(r"(?:.*::)?<impl serde::(?:ser::)?Serialize for ([\w:]+)(<.*>)?>::serialize$", p) or re.match(
                r"<([\w:]+)(<.*>)? as serde::(?:ser::)?Serialize>::serialize$", p
            )
            if m and m.group(1) == path:
                return self.F.by_path[p][0]
        for p, fs in self.F.by_path.items():
            if re.search(r"Serialize for " + re.escape(path) + r"(<.*>)?>::serialize$", p):
                return fs[0]
        return None


def check(F, prop="C07"):
    obs = []
    funcs = set()
    R = Roots(F)
    ob = lambda key, ok, where, detail: obs.append(Ob(prop, key, ok, where, detail))

    # 1. raw hashing is confined
    for s in all_sites(F):
        if s.callee in CONFINED:
            bad = R.roots(s.fn["path"]) - CONFINED[s.callee]
            ob(f"raw:{s.callee}:{owner(s.fn['path'])}", not bad, s.sp,
               f"{s.callee} is used by {', '.join(sorted(bad))}, outside the framed and tagged interface of tools::hashing" if bad else f"{s.callee} is used only by its framing wrapper")
        elif re.match(r"digest::(Digest|FixedOutput|ExtendableOutputReset|VariableOutput|Reset|DynDigest|Mac)\b", s.callee):
            ok = any(all(r.startswith(pre) for r in R.roots(s.fn["path"])) and re.fullmatch(rx, s.callee) for pre, rx in DIGEST_OK.items())
            ok = ok or all(r.startswith("curve::bip32") for r in R.roots(s.fn["path"]))
            ob(f"raw:{s.callee}:{owner(s.fn['path'])}", ok, s.sp, f"direct use of {s.callee}" + ("" if ok else " outside tools::hashing"))
    for f in F.fns:
        if not f.get("body"):
            continue
        for bl in f["body"]["blocks"]:
            for st in bl[0]:
                rv = st[1] if isinstance(st[1], dict) else {}
                if rv.get("k") == "agg" and str(rv.get("adt") or rv.get("path") or "").startswith(H + "Hasher"):
                    roots = R.roots(f["path"])
                    ok = roots <= {H + "Hasher::<D>::new", "<" + H + "Hasher<D> as " + H + "Chain>::chain_raw_bytes", NEW_DST}
                    ob(f"raw:Hasher:{owner(f['path'])}", ok, str(st[-1]), "a Hasher is built" + ("" if ok else " without a domain tag"))

    # 2. domain tags
    tags = {}
    for s in all_sites(F):
        if s.callee != NEW_DST:
            continue
        got = R.call_args(s, NEW_DST)
        funcs |= {r for r, _, _ in got}
        if not got:
            ob(f"tag:{owner(s.fn['path'])}", False, s.sp, "the domain tag of this hash could not be determined")
        for root, pc, args in got:
            a = args[0]
            if isinstance(a, T) and a.op == "c" and isinstance(a.args[0], (str, bytes)):
                tags.setdefault(a.args[0], {}).setdefault(purpose(self_type(root)), s.sp)
                ob(f"tag:{root}:{a.args[0]}", True, s.sp, f"constant tag {a.args[0]!r}")
            elif isinstance(a, str):
                tags.setdefault(a, {}).setdefault(purpose(self_type(root)), s.sp)
                ob(f"tag:{root}:{a}", True, s.sp, f"constant tag {a!r}")
            else:
                ob(f"tag:{root}", False, s.sp, f"the domain tag is not a constant: {a!r}"[:300])
    for t, ps in sorted(tags.items()):
        ob(f"single-purpose:{t}", len(ps) == 1 and t != "", "; ".join(sorted(ps.values())),
           f"tag {t!r} is used for " + " and for ".join(sorted(ps)))
    ob("tags", bool(tags), "", f"{len(tags)} tags")

    # 3. every hashed item is self-delimiting
    fr = Framing(F)
    ch = H + "Chain::chain"
    todo = []
    for s in all_sites(F):
        if s.callee == ch or (s.callee == H + "Hashable::chain" and s.fn["path"] != H + "Chain::chain"):
            t = s.targs[-1] if s.callee == ch else s.targs[0]
            todo.append((s, t))
    done = set()
    while todo:
        s, t = todo.pop()
        where, fp = s.sp, owner(s.fn["path"])
        if (fp, t.s, s.callee) in done:
            continue
        done.add((fp, t.s, s.callee))
        funcs.add(fp)
        ps = params_of(t)
        own = generics(F, s.fn)
        free = [p for p in ps if p != "Id" and p in own and hashable_param(p, t)]
        if free:
            # generic item: check what the callers pass
            n = 0
            for c in R.callers.get(fp, []):
                m = bind(F, s.fn, c)
                if m is None:
                    continue
                n += 1
                todo.append((c_site(c, ch), F.sub(t, m)))
            ob(f"framing:{fp}:{t.s}", True, where, f"generic item, decided at {n} call sites")
            continue
        b = fr.bad(t)
        ob(f"framing:{fp}:{t.s}", b is None, where, f"hashed item of type {t.s} " + ("is self-delimiting" if b is None else f"is not self-delimiting: {b}"))
    for a in sorted(fr.assumed):
        ob("assumption:" + a.split(":")[0], True, "", "taken as given: " + a)
    return obs, funcs


class c_site:
    def __init__(self, c, callee):
        self.fn, self.sp, self.callee, self.targs = c.fn, c.sp, callee, c.targs


def params_of(t):
    if t.k == "param":
        return [t.path]
    return [p for a in t.args for p in params_of(a)]


def generics(F, f):
    return [g if isinstance(g, str) else (g.get("name") if isinstance(g, dict) else g[0]) for g in f.get("generics", [])]


def hashable_param(p, t):
    """A type parameter that is itself hashed (scheme parameters P are only arguments of local types)."""
    return t.k == "param" and t.path == p or (t.k in ("ref", "slice", "array", "tuple") and any(hashable_param(p, a) for a in t.args)) or (
        t.k == "adt" and (t.path in SEQS or t.path in PTRS) and any(hashable_param(p, a) for a in t.args)
    )


def bind(F, f, c):
    g = generics(F, f)
    if len(g) != len(c.targs):
        return None
    return dict(zip(g, c.targs))


def purpose(t):
    for g in SAME_PURPOSE:
        if t in g:
            return min(g)
    return t
