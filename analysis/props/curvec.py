"""Contracts of src/curve and src/params/conversion.rs (C17, C18, C26, C30, C31)."""
from ..low import *
from ..terms import fold as fold_t, seq

SC = "curve::arithmetic::Scalar"
PT = "curve::arithmetic::Point"
S = f"{SC}::<P>::"
P = f"{PT}::<P>::"
CRV = "<P as params::traits::SchemeParams>::Curve"
ORDER = mk0("const", f"<{CRV} as elliptic_curve::Curve>::ORDER")
RNG = f"{CRV},tools::boxed_rng::BoxedRng<'_>"


def z(x):
    return fld(x, "0")


def sc(v):
    return rec(SC, **{"0": v})


def pt(v):
    return rec(PT, **{"0": v})


def scT(v):
    return agg(SC, ("0",), [v])


def ptT(v):
    return agg(PT, ("0",), [v])


ct = Book()
OPS = "core::ops::"
A = "C17"

# ---- arithmetic of scalars and points is that of the backend
for nm, f in (("Add", padd), ("Sub", psub), ("Mul", pmul)):
    m = nm.lower()
    for lhs in (f"{SC}<P>", f"&{SC}<P>"):
        for rhs in ("", f"<{SC}<P>>", f"<&{SC}<P>>", f"<&'a {SC}<P>>"):
            ct(A, f"<{lhs} as {OPS}{nm}{rhs}>::{m}", optional=True)(lambda C, a, b, f=f: dict(ret=sc(f(z(a), z(b)))))
    for rhs in ("", f"<&'a {SC}<P>>", f"<&{SC}<P>>"):
        ct(A, f"<{SC}<P> as {OPS}{nm}Assign{rhs}>::{m}_assign", optional=True)(lambda C, a, b, f=f: dict(mem={0: sc(f(z(a), z(b)))}))
for lhs in (f"{SC}<P>", f"&{SC}<P>"):
    ct(A, f"<{lhs} as {OPS}Neg>::neg", optional=True)(lambda C, a: dict(ret=sc(pneg(z(a)))))
for lhs in (f"{PT}<P>", f"&{PT}<P>"):
    for rhs in ("", f"<{PT}<P>>", f"<&{PT}<P>>"):
        ct(A, f"<{lhs} as {OPS}Add{rhs}>::add", optional=True)(lambda C, a, b: dict(ret=pt(gadd(z(a), z(b)))))
    for rhs in (f"<{SC}<P>>", f"<&{SC}<P>>"):
        ct(A, f"<{lhs} as {OPS}Mul{rhs}>::mul", optional=True)(lambda C, a, b: dict(ret=pt(gmul(z(b), z(a)))))
SEC = "tools::secret::Secret"
for rhs in (f"&{SEC}<{SC}<P>>", f"{SEC}<{SC}<P>>"):
    for lhs in (f"&{PT}<P>", f"{PT}<P>"):
        ct(A, f"tools::secret::<impl core::ops::Mul<{rhs}> for {lhs}>::mul", optional=True)(lambda C, a, b: dict(ret=pt(gmul(z(b), z(a)))))
ct(A, S + "mul_by_generator")(lambda C, a: dict(ret=pt(gmul(z(a), C.canon(call("elliptic_curve::Group::generator", ""))))))
ct(A, f"{SEC}::<{SC}<P>>::mul_by_generator")(lambda C, a: dict(ret=pt(gmul(z(a), C.canon(call("elliptic_curve::Group::generator", ""))))))
ct(A, P + "generator")(lambda C: dict(ret=pt(C.canon(call("elliptic_curve::Group::generator", "")))))
ct(A, P + "identity")(lambda C: dict(ret=pt(C.canon(call("elliptic_curve::Group::identity", "")))))
ct(A, S + "ONE")(lambda C: dict(ret=sc(const(1))))
ct(A, S + "ZERO")(lambda C: dict(ret=sc(const(0))))
ct(A, f"<{SC}<P> as core::convert::From<u64>>::from")(lambda C, a: dict(ret=sc(a)))
ct(A, f"<{SC}<P> as core::cmp::PartialEq>::eq")(lambda C, a, b: dict(ret=eq0(psub(z(a), z(b)), "p")))
ct(A, f"<{PT}<P> as core::cmp::PartialEq>::eq")(lambda C, a, b: dict(ret=eq0(psub(z(a), z(b)), "p")))
ct(A, f"<{SC}<P> as elliptic_curve::subtle::ConditionallySelectable>::conditional_select")(
    lambda C, a, b, c: dict(ret=sc(ite(tobool(c), z(b), z(a))))
)


CA = f"<{CRV} as elliptic_curve::CurveArithmetic>"
FS, AFF, PROJ, CU = f"{CA}::Scalar", f"{CA}::AffinePoint", f"{CA}::ProjectivePoint", f"<{CRV} as elliptic_curve::Curve>::Uint"
REDUCE = "elliptic_curve::ops::Reduce::reduce_bytes"


def affine(p):
    return call("elliptic_curve::group::Curve::to_affine", PROJ, p)


def exact(s):
    """A fixed-size array from a slice of exactly that length."""
    return call("digest::generic_array::GenericArray::<T, N>::from_exact_iter", "", mk0("iter", s, const(0)))


def from_repr(b):
    return call("elliptic_curve::PrimeField::from_repr", FS, b)


@ct(A, S + "invert")
def _(C, a):
    i = call("elliptic_curve::Field::invert", FS, z(a))
    return dict(ret=("opt", is_some(i), sc(fld(i, "Some.0"))))


ct(A, S + "from_reduced_bytes")(lambda C, a: dict(ret=sc(call(REDUCE, FS, a))))
ct(A, P + "x_coordinate")(lambda C, a: dict(ret=sc(call(REDUCE, FS, call("elliptic_curve::point::AffineCoordinates::x", AFF, affine(z(a)))))))


def sums(wrap, op):
    def f(C, it):
        iv = fresh_iv()
        return dict(ret=wrap(bigsum(length(it), iv, z(elem(it, iv)), op)))

    return f


for ty, w, k in ((SC, sc, "p"), (PT, pt, "g")):
    ct(A, f"<{ty}<P> as core::iter::Sum>::sum")(sums(w, k))
    ct(A, f"<{ty}<P> as core::iter::Sum<&'a {ty}<P>>>::sum")(sums(w, k))
ct(A, f"<{SEC}<{SC}<P>> as core::iter::Sum>::sum")(sums(sc, "p"))
ct(A, f"<{SEC}<{SC}<P>> as core::iter::Sum<&'a {SEC}<{SC}<P>>>>::sum")(sums(sc, "p"))


# ---- sampling
NZR, SPR = "elliptic_curve::NonZeroScalar::<C>::random", "elliptic_curve::ScalarPrimitive::<C>::random"
ct("C30", S + "random")(lambda C, r: dict(ret=sc(draw(0, SPR, RNG))))
ct("C30", S + "random_nonzero")(lambda C, r: dict(ret=sc(draw(0, NZR, RNG))))


@ct(("C30", "C28"), "curve::arithmetic::secret_split")
def _(C, rng, s, n):
    iv = fresh_iv()
    m = sub(n, const(1))
    d = lambda i: draw(0, NZR, RNG, ivs=(i,))
    last = mk0("with", s, "0", psub(z(s), bigsum(m, iv, d(iv), "p")))
    one = eq(n, const(1))
    # (with no parties there is nothing to split: the caller guarantees at least one)
    return dict(assume=pos(n), ret=cat([seq(m, iv, scT(d(iv))), mk0("one", last)]))


def reader(r, k):
    d = mk0("call", "default", f"digest::generic_array::GenericArray<u8, <{CU} as elliptic_curve::crypto_bigint::ArrayEncoding>::ByteSize>")
    for _ in range(k):
        r, b = mk0("upd", "digest::XofReader::read", 0, r, d), mk0("upd", "digest::XofReader::read", 1, r, d)
    return r, b


@ct(("C30", "C01"), S + "from_xof_reader")
def _(C, r):
    """Twice the width of the order is read and reduced, so that the result is close to uniform."""
    ECB = "elliptic_curve::crypto_bigint::"
    cc = lambda hi, lo: call(ECB + "Concat::concat", CU, hi, lo)
    r1, lo = reader(r, 1)
    r2, hi = reader(r, 2)
    fb = lambda b: call(ECB + "ArrayEncoding::from_be_byte_array", CU, b)
    order = cc(mk0("const", f"<{CU} as {ECB}Zero>::ZERO"), ORDER)
    v = call("mod", "", cc(fb(hi), fb(lo)), order)
    v = fld(call(ECB + "Split::split", f"<{CU} as {ECB}Concat>::Output", v), "1")
    return dict(assume=b_not(eq0(order, "p")), ret=sc(call("elliptic_curve::scalar::FromUintUnchecked::from_uint_unchecked", FS, v)), mem={0: r2})


# ---- encodings
ENC = ("C17", "C18")
SL = "serde_encoded_bytes::SliceLike::<Enc>::"


@ct(ENC, [S + "try_from_be_bytes", f"<{SC}<P> as uint::traits::BoxedEncoding>::try_from_be_bytes", f"<{SC}<P> as core::convert::TryFrom<&'a [u8]>>::try_from"])
def _(C, b):
    v = from_repr(fld(exact(b), "Some.0"))
    return dict(ret=("res", b_and(is_some(exact(b)), is_some(v)), sc(fld(v, "Some.0"))))


ct(ENC, [S + "to_be_bytes", f"<{SC}<P> as uint::traits::BoxedEncoding>::to_be_bytes"])(lambda C, a: dict(ret=z(a)))


def encoded(a):
    return exact(call("sec1::point::EncodedPoint::<Size>::as_bytes", "", call("elliptic_curve::sec1::ToEncodedPoint::to_encoded_point", AFF, affine(z(a)), TRUE)))


# (the identity has no compressed encoding of that size)
ct(ENC, P + "to_compressed_array")(lambda C, a: dict(assume=is_some(encoded(a)), ret=fld(encoded(a), "Some.0")))


@ct(ENC, [P + "try_from_compressed_bytes", f"<{PT}<P> as core::convert::TryFrom<&'a [u8]>>::try_from"])
def _(C, b):
    e = call("sec1::point::EncodedPoint::<Size>::from_bytes", "", b)
    ev = fld(e, "Ok.0")
    p = call("elliptic_curve::sec1::FromEncodedPoint::from_encoded_point", PROJ, ev)
    return dict(ret=("res", b_and(is_ok(e), tobool(call("sec1::point::EncodedPoint::<Size>::is_compressed", "", ev)), is_some(p)), pt(fld(p, "Some.0"))))


ct(ENC, f"<{SC}<P> as serde::Serialize>::serialize")(lambda C, a, s: dict(ret=call(SL + "serialize", "", z(a), s)))
ct(ENC, f"<{PT}<P> as serde::Serialize>::serialize")(lambda C, a, s: dict(assume=is_some(encoded(a)), ret=call(SL + "serialize", "", fld(encoded(a), "Some.0"), s)))
ct(ENC, [f"<{SC}<P> as serde::Deserialize<'de>>::deserialize", f"<{PT}<P> as serde::Deserialize<'de>>::deserialize"])(
    lambda C, d: dict(ret=call(SL + "deserialize", "", d))
)
VKF = "ecdsa::VerifyingKey::<C>::from_affine"
vk = lambda p: call(VKF, "", affine(z(p)))
ct(ENC, P + "to_verifying_key")(lambda C, a: dict(ret=("opt", is_ok(vk(a)), fld(vk(a), "Ok.0"))))
ct(ENC, P + "from_verifying_key")(lambda C, k: dict(ret=pt(call("ecdsa::VerifyingKey::<C>::as_affine", "", k))))
nz = lambda a: call("elliptic_curve::NonZeroScalar::<C>::new", "", z(a))
ct(ENC, f"curve::arithmetic::<impl {SEC}<{SC}<P>>>::to_signing_key")(lambda C, a: dict(ret=("opt", is_some(nz(a)), fld(nz(a), "Some.0"))))

# ---- conversions between scalars and integers
PP = "<P as params::traits::SchemeParams>::Paillier"
UINT = f"<{PP} as paillier::params::PaillierParams>::Uint"
WUINT = f"<{PP} as paillier::params::PaillierParams>::WideUint"
NUMBITS = mk0("const", f"<{FS} as elliptic_curve::PrimeField>::NUM_BITS")
M = "params::conversion::"
V = lambda x: fld(x, "value")
nonzero = b_and(b_not(eq0(ORDER, "p")), b_not(eq0(call("zext", "", ORDER), "p")))
ct(A, M + "curve_order")(lambda C: dict(ret=ORDER))
ct(A, M + "curve_order_uint")(lambda C: dict(assume=nonzero, ret=ORDER))
ct(A, M + "curve_order_wide_uint")(lambda C: dict(assume=nonzero, ret=call("zext", "", ORDER)))
# an encoded scalar fits in an integer of the scheme (a condition on the parameter sets, see C16)
encfits = lambda a: le(length(z(a)), mk0("const", f"<{UINT} as crypto_bigint::Bounded>::BYTES"))
ct(A, [M + "uint_from_scalar", M + "secret_uint_from_scalar"])(lambda C, a: dict(assume=encfits(a), ret=beint(z(a))))


@ct(A, M + "public_signed_from_scalar")
def _(C, a):
    o = bitlen(ORDER)
    x = beint(z(a))
    return dict(assume=b_and(nonzero, encfits(a), lt(o, bits_of(UINT)), le(bitlen(x), o)), ret=rec("", value=x, bound=o))


@ct(A, M + "secret_signed_from_scalar")
def _(C, a):
    x = beint(z(a))
    v = ite(atom(mk0("less", call("shr", "", ORDER, const(1)), x)), psub(x, ORDER), x)
    b = sub(NUMBITS, const(1))
    return dict(assume=b_and(nonzero, encfits(a), lt(b, bits_of(UINT)), le(bitlen(sabs(UINT, v)), b)), ret=rec("", value=v, bound=b))


def residue(x):
    """The scalar of an integer reduced modulo the group order."""
    n = mk0("call", "digest::typenum::Unsigned::to_usize", f"<{CRV} as elliptic_curve::Curve>::FieldBytesSize")
    e = exact(call("below", "", call("mod", "", x, call("zext", "", ORDER)), n))
    r = from_repr(fld(e, "Some.0"))
    return b_and(is_some(e), is_some(r)), fld(r, "Some.0")


@ct(A, [M + "scalar_from_wide_uint", M + "secret_scalar_from_wide_uint"])
def _(C, x):
    ok, r = residue(x)
    return dict(assume=b_and(nonzero, ok), ret=sc(r))


def signedres(ty, ext):
    def f(C, x):
        n = negsign(ty, V(x))
        okp, rp = residue(ext(V(x)))
        okn, rn = residue(ext(pneg(V(x))))
        return dict(assume=b_and(nonzero, ite(n, okn, okp)), ret=sc(ite(n, pneg(rn), rp)))

    return f


ct(A, [M + "scalar_from_signed", M + "secret_scalar_from_signed"])(signedres(UINT, lambda v: call("zext", "", v)))
ct(A, [M + "scalar_from_wide_signed", M + "secret_scalar_from_wide_signed"])(signedres(WUINT, lambda v: v))


# ---- signatures
@ct("C26", "curve::ecdsa::RecoverableSignature::<P>::from_scalars")
def _(C, r, s, key, msg):
    sig = call("ecdsa::Signature::<C>::from_scalars", "", z(r), z(s))
    n = call("ecdsa::Signature::<C>::normalize_s", "", fld(sig, "Ok.0"))
    norm = ite(is_some(n), fld(n, "Some.0"), fld(sig, "Ok.0"))
    k = vk(key)
    rid = lambda x: call("ecdsa::RecoveryId::trial_recovery_from_prehash", "", fld(k, "Ok.0"), z(msg), x)
    ok = ite(is_some(n), is_ok(rid(fld(n, "Some.0"))), is_ok(rid(fld(sig, "Ok.0"))))
    recid = ite(is_some(n), fld(rid(fld(n, "Some.0")), "Ok.0"), fld(rid(fld(sig, "Ok.0")), "Ok.0"))
    return dict(ret=("opt", b_and(is_ok(sig), is_ok(k), ok), rec("", signature=norm, recovery_id=recid)))


ct("C26", "curve::ecdsa::RecoverableSignature::<P>::to_backend")(lambda C, a: dict(ret=rec("", **{"0": fld(a, "signature"), "1": fld(a, "recovery_id")})))

# ---- child keys (BIP-32)
B32 = "curve::bip32::"
DT, AT = B32 + "derive_tweaks", B32 + "apply_tweaks_public"


def fails(n, iv, res):
    """Some iteration's result is an error."""
    return exists(n, iv, b_not(is_ok(res)))


def chained(C, n, init, step):
    """Fold of a fallible step: (number of iterations) -> state."""

    def upto(k):
        iv = fresh_iv()
        lv = mk0("lv", iv, "acc")
        return C.canon(fold_t(k, iv, lv, init, step(lv, iv)))

    return upto


@ct("C31", DT)
def _(C, pk, path):
    """Step i tweaks the key and the chain code left by step i - 1."""
    ty, D = "impl bip32::PublicKey + Clone", "digest::Digest::"
    dg = "<C as ecdsa::hazmat::DigestPrimitive>::Digest"
    h = call(D + "new", dg)
    for b in (mk0("c", "chain-code-derivation", "bytes"), call("bip32::PublicKey::to_bytes", ty, pk)):
        h = call(D + "chain_update", dg, h, b)
    h = call(D + "finalize", dg, h)
    cc = mk0("call", "default", "[u8; 32]")
    m = imin(length(h), length(cc))
    rng = tm.tup(const(0), m)
    cc = mk0("updrange", cc, rng, mk0("call", "subslice", "", h, rng))
    n = length(path)
    tweak = lambda st, i: call("bip32::PublicKey::derive_tweak", ty, fld(st, "0"), fld(st, "1"), elem(path, i))
    child = lambda st, i: call("bip32::PublicKey::derive_child", ty, fld(st, "0"), fld(fld(tweak(st, i), "Ok.0"), "0"))
    upto = chained(C, n, tm.tup(pk, cc), lambda st, i: tm.tup(fld(child(st, i), "Ok.0"), fld(fld(tweak(st, i), "Ok.0"), "1")))
    iv = fresh_iv()
    ok = b_and(b_not(fails(n, iv, tweak(upto(iv), iv))), b_not(fails(n, iv, child(upto(iv), iv))))
    return dict(ret=("res", ok, seq(n, iv, fld(fld(tweak(upto(iv), iv), "Ok.0"), "0"))))


VKT = "ecdsa::VerifyingKey<C>"


def tweaked(C, ty, key, tweaks, tr="Public", m="pk"):
    """key changed by every tweak in turn: (succeeds, result)"""
    n = length(tweaks)
    st = lambda s, i: call(f"bip32::{tr}Key::derive_child", f"<{ty} as {B32}{tr.replace('Private', 'Secret')}Tweakable>::Bip32{m.capitalize()}", s, elem(tweaks, i))
    T_ = B32 + ("Public" if tr == "Public" else "Secret") + "Tweakable::"
    upto = chained(C, n, call(T_ + f"tweakable_{m}", ty, key), lambda s, i: fld(st(s, i), "Ok.0"))
    iv = fresh_iv()
    return b_not(fails(n, iv, st(upto(iv), iv))), call(T_ + f"key_from_tweakable_{m}", ty, upto(n))


@ct("C31", AT)
def _(C, pk, tweaks):
    return dict(ret=("res",) + tweaked(C, VKT, pk, tweaks))


@ct("C31", f"<{VKT} as {B32}DeriveChildKey<C>>::derive_verifying_key_bip32", leaf=(re.escape(DT), re.escape(AT)))
def _(C, key, path):
    t = call(DT, "", call(B32 + "PublicTweakable::tweakable_pk", VKT, key), path)
    r = call(AT, "", key, fld(t, "Ok.0"))
    return dict(ret=("res", b_and(is_ok(t), is_ok(r)), fld(r, "Ok.0")))


for m in ("dev::TestParams", "k256::ProductionParams112"):
    cv = f"<params::{m} as params::traits::SchemeParams>::Curve"
    md = m.split("::")[0]
    for k, w, a in (("Public", "Verifying", "pk"), ("Secret", "Signing", "sk")):
        pre = f"params::{md}::<impl curve::bip32::{k}Tweakable for ecdsa::{w}Key<{cv}>>::"
        ct("C31", [pre + f"tweakable_{a}", pre + f"key_from_tweakable_{a}"])(lambda C, x: dict(ret=x))

run = ct.run
if __name__ == "__main__":
    ct.main()
