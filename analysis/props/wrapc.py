"""Contracts of the wrappers whose operations the analyses of the layers above take to be those of the wrapped values:
`Secret` (C17), `PublicUint` (C17), `BoxedRng` (C30), `BitVec` (C20), and small helpers of the layers below."""
from ..low import *

ct = Book()
OPS = "core::ops::"
CBG = "crypto_bigint::"
SEC = "tools::secret::Secret"
ST = f"{SEC}<T>"
W = "C17"
SAME = lambda C, a: dict(ret=a)

# ---- Secret<T>: the operation of T on the wrapped values, whatever the form of the operands
ct(W, f"<{ST} as core::clone::Clone>::clone")(SAME)
ct((W, "C10"), f"{SEC}::<T>::expose_secret")(SAME)
RHS = {"": "", "T": "<T>", "&T": "<&'a T>", "S": f"<{ST}>", "&S": f"<&'a {ST}>"}
for nm, f in (("Add", padd), ("Sub", psub), ("Mul", pmul)):
    m = nm.lower()
    for lhs in (ST, f"&{ST}"):
        for r in RHS.values():
            ct(W, f"<{lhs} as {OPS}{nm}{r}>::{m}", optional=True)(lambda C, a, b, f=f: dict(ret=f(a, b)))
    for r in RHS.values():
        ct(W, f"<{ST} as {OPS}{nm}Assign{r}>::{m}_assign", optional=True)(lambda C, a, b, f=f: dict(mem={0: f(a, b)}))
NZ = f"{CBG}NonZero<T>"
for nm in ("Div", "Rem"):
    m = nm.lower()
    for lhs in (ST, f"&{ST}"):
        for r in (f"<{NZ}>", f"<&'a {NZ}>"):
            ct(W, f"<{lhs} as {OPS}{nm}{r}>::{m}", optional=True)(lambda C, a, b, nm=nm, m=m: dict(ret=call(f"core::ops::{nm}::{m}", "T", a, b)))
    for r in (f"<{NZ}>", f"<&'a {NZ}>"):
        ct(W, f"<{ST} as {OPS}{nm}Assign{r}>::{m}_assign", optional=True)(
            lambda C, a, b, nm=nm, m=m: dict(mem={0: call(f"core::ops::{nm}::{m}", "T", a, b)})
        )
for lhs in (ST, f"&{ST}"):
    ct(W, f"<{lhs} as {OPS}Neg>::neg", optional=True)(lambda C, a: dict(ret=call("core::ops::Neg::neg", "", a)))
for nm in ("neg", "add", "sub", "mul"):
    ct(W, f"<{ST} as {CBG}Wrapping{nm.capitalize()}>::wrapping_{nm}", optional=True)(
        lambda C, *a, nm=nm: dict(ret=call(f"{CBG}Wrapping{nm.capitalize()}::wrapping_{nm}", "", *a))
    )
ct(W, f"{SEC}::<T>::to_wide")(lambda C, a: dict(ret=call("uint::traits::Extendable::to_wide", "", a)))
ct(W, f"{SEC}::<T>::pow")(lambda C, a, e: dict(ret=call("uint::traits::Exponentiable::pow", "T", a, e)))
ct(W, f"<{ST} as {CBG}modular::Retrieve>::retrieve")(lambda C, a: dict(ret=call(f"{CBG}modular::Retrieve::retrieve", "T", a)))
ct(W, f"{SEC}::<T>::to_montgomery")(lambda C, a, p: dict(ret=call(f"{CBG}Monty::new", f"<T as {CBG}Integer>::Monty", a, p)))
ct(W, f"{SEC}::<T>::conditional_select")(lambda C, a, b, c: dict(ret=ite(c, b, a)))
ct(W, f"<{ST} as elliptic_curve::subtle::ConditionallyNegatable>::conditional_negate", optional=True)(
    lambda C, a, c: dict(mem={0: ite(c, call("core::ops::Neg::neg", "", a), a)})
)

# ---- PublicUint<T>
PU = "uint::public_uint::PublicUint"
for p in (f"{PU}::<T>::inner", f"<{PU}<T> as core::convert::AsRef<T>>::as_ref", f"<{PU}<T> as core::convert::From<T>>::from", f"<{PU}<T> as core::ops::Deref>::deref"):
    ct(W, p, optional=True)(SAME)


ct(W, f"<{PU}<T> as core::ops::DerefMut>::deref_mut", optional=True)(lambda C, a: dict(mem={0: a}))

# ---- their encodings are those of the wrapped integers, read back with the checks of the decoder of the integer
SL = "serde_encoded_bytes::SliceLike::<Enc>::"
HEXT = ""
BE = "uint::traits::BoxedEncoding::"
for ty in (ST, f"{PU}<T>"):

    @ct("C18", f"<{ty} as serde::Serialize>::serialize")
    def _(C, a, s):
        return dict(ret=call(SL + "serialize", HEXT, call(BE + "to_be_bytes", "T", a), s))

    @ct("C18", f"<{ty} as serde::Deserialize<'de>>::deserialize")
    def _(C, d):
        bs = call(SL + "deserialize", HEXT, d)
        v = call(BE + "try_from_be_bytes", "T", fld(bs, "Ok.0"))
        return dict(ret=("res", b_and(is_ok(bs), is_ok(v)), fld(v, "Ok.0")))


# ---- what the accessors of the public entities give out
for p_, f_ in (
    ("full::AuxInfo::<P, I>::owner", "owner"),
    ("full::AuxInfo::<P, I>::public", "public"),
    ("full::KeyShare::<P, I>::owner", "owner"),
    ("full::KeyShare::<P, I>::public", "public"),
    ("full::KeyShare::<P, I>::secret_share", "secret"),
    ("full::PublicAuxInfos::<P, I>::as_map", "0"),
    ("full::PublicKeyShares::<P, I>::as_map", "0"),
    ("threshold::ThresholdKeyShare::<P, I>::threshold", "threshold"),
):
    ct("C27", "entities::" + p_, optional=True)(lambda C, a, f_=f_: dict(ret=fld(a, f_)))
ct("C27", "entities::full::PublicAuxInfos::<P, I>::num_parties", optional=True)(lambda C, a: dict(ret=length(fld(a, "0"))))
NZS = "elliptic_curve::NonZeroScalar<<P as params::traits::SchemeParams>::Curve>"
ct(W, f"<curve::arithmetic::Scalar<P> as core::convert::From<&{NZS}>>::from", optional=True)(lambda C, a: rec_scalar(a))


def rec_scalar(a):
    return dict(ret=rec("curve::arithmetic::Scalar", **{"0": a}))


# ---- what the contract engine does not express: loops with a first element, calls on the generator
SC, SS = "curve::arithmetic::Scalar", "uint::secret_signed::SecretSigned"


def folds(t, dom, first, zero, step):
    """Is t the combination of all elements of the sequence, starting from the neutral element or from the first one?"""
    a0 = mk0("in", "a0")

    def loop(t, n, shift, start):
        if t.op != "fold":
            return False
        d, bv, acc, init, body = t.args
        iv, y = fresh_iv(), mk0("in", "ACC")
        b = subst(body, {bv: iv, acc: y})
        return d is n and start(init) and step(b, y, elem(a0, tm.add(iv, const(shift))))

    n = mk0("len", a0)
    if loop(t, n, 0, zero):
        return True
    if t.op == "ite":
        for c, x, y in ((t.args[0], t.args[1], t.args[2]),):
            some = cof(t, c, True)
            none = cof(t, c, False)
            if c is pos(n) or c is atom_of(pos(n)):
                return loop(some, sub(n, const(1)), 1, lambda i: first(i, elem(a0, const(0)))) and zero(none)
    return False


def atom_of(p):
    return p.args[0] if p.op == "ite" else p


def iteration(F, prop):
    from ..roots import run_vf

    obs = []
    C = LowCanon(None, None, None)
    zs = lambda t: C(fld(t, "0")) is C(const(0))
    p = f"<{SC}<P> as core::iter::Product>::product"
    f = F.by_path.get(p)
    if f:
        one = mk0("const", f"{SC}::<P>::ONE[P]")
        r = run_vf(F, f[0], lambda i: None).result
        ok = r.pc is TRUE and folds(
            r.ret, None, lambda i, e: C(fld(i, "0")) is C(fld(e, "0")), lambda i: C(fld(i, "0")) is C(const(1)),
            lambda b, y, e: C(fld(b, "0")) is pmul(C(fld(y, "0")), C(fld(e, "0"))),
        )
        obs.append(Ob(prop, p, ok, f"{f[0].get('file', '')} {p}", "the product of all the elements" if ok else f"not the product of the elements: {show(r.ret, 8)}"))
    return obs, [p]


RNGS = {"next_u32": 1, "next_u64": 1, "fill_bytes": 2, "try_fill_bytes": 2}


def generator(F, prop):
    """The boxed generator hands every request to the caller's generator, and all of its output back."""
    from ..roots import run_vf

    obs, fs = [], []
    for n, k in RNGS.items():
        p = f"<tools::boxed_rng::BoxedRng<'_> as rand_core::RngCore>::{n}"
        f = F.by_path.get(p)
        if not f:
            obs.append(Ob(prop, f"{p}:anchor", False, p, "the function the property is about no longer exists"))
            continue
        fs.append(p)
        r = run_vf(F, f[0], lambda i: None).result
        name = f"rand_core::RngCore::{n}"
        ok = r.pc is TRUE and inner(r.ret, name, k)
        if ok and k == 2:
            m = r.mem.get(("arg", "a1"))
            ok = m is not None and m.op == "upd" and m.args[0] == name and m.args[1] == 1
        obs.append(Ob(prop, p, ok, f"{f[0].get('file', '')} {p}", f"is {name} of the caller's generator" if ok else f"is not {name} of the caller's generator: {show(r.ret, 8)}"))
    return obs, fs


def inner(t, name, k):
    if t.op == "agg" and t.args[0].startswith("tuple") and not t.args[2:] and name.endswith("::fill_bytes"):
        return True
    return t.op == "call" and t.args[0] == name and "CryptoRngCore" in t.args[1] and len(t.args) == 2 + k and (k == 1 or t.args[3] is mk0("in", "a1"))


OWNER = (("uint::", "C11"), ("curve::", "C17"), ("paillier::", "C12"), ("tools::secret::", "C17"), ("tools::sss::", "C28"), ("tools::", "C20"), ("zk::", "C02"), ("", "C27"))


def clones(F, prop):
    """A hand-written Clone gives a copy (the analyses take clone() to be the identity)."""
    from ..roots import run_vf

    obs, fs = [], []
    C = LowCanon(None, None, None)
    a0 = mk0("in", "a0")
    for p, g in F.by_path.items():
        if not p.endswith("as core::clone::Clone>::clone") or g[0].get("derived_fn") or not g[0].get("body"):
            continue
        if next((o for d, o in OWNER if p.lstrip("<").startswith(d)), None) != prop:
            continue
        fs.append(p)
        try:
            r = run_vf(F, g[0], lambda i: None).result
            ok = r.pc is TRUE and copy_of(C, r.ret, a0)
            d = "is a copy" if ok else f"is not a copy of its argument: {show(r.ret, 8)}"
        except (Unsupported, RecursionError, KeyError) as e:
            ok, d = False, f"cannot be analysed: {e}"
        obs.append(Ob(prop, f"{p}:copy", ok, f"{g[0].get('file', '')} {p}", d))
    return obs, fs


def copy_of(C, t, x):
    if t is x or C(t) is C(x):
        return True
    if t.op == "agg":
        return all(copy_of(C, v, fld(x, n)) for n, v in zip(t.args[1], t.args[2:]))
    if t.op == "ite":
        return all(copy_of(C, y, x) for y in t.args[1:])
    if t.op == "seq":
        d, bv, b = t.args
        return d is mk0("len", x) and b is elem(x, bv)
    return False


REGISTRY = {"C17": [iteration], "C30": [generator]}
for d_, o_ in OWNER:
    if clones not in REGISTRY.setdefault(o_, []):
        REGISTRY[o_].append(clones)
RULES = {
    "C17": "Every operation of the wrappers `Secret` and `PublicUint` is the operation of the wrapped type on the wrapped values, whatever the form (owned, borrowed, assigning) of the operands.",
    "C30": "The boxed generator hands every request to the generator of the caller and returns what that one produced.",
}
