"""Contracts of src/uint (C11, C18, C30, parts of C03)."""
from ..low import *

SS = "uint::secret_signed::SecretSigned"
PS = "uint::public_signed::PublicSigned"
SU = "uint::secret_unsigned::SecretUnsigned"
S = f"{SS}::<T>::"
Pp = f"{PS}::<T>::"
U = f"{SU}::<T>::"
RM = "crypto_bigint::RandomMod::random_mod"


def V(x):
    return fld(x, "value")


def B(x):
    return fld(x, "bound")


def BT(ty="T"):
    return bits_of(ty)


def sg(x, ty="T"):
    return negsign(ty, x)


def ab(x, ty="T"):
    return sabs(ty, x)


def inv(x, ty="T"):
    """The invariant of a signed integer."""
    return b_and(lt(B(x), BT(ty)), le(bitlen(ab(V(x), ty)), B(x)))


def signed(label, value, bound):
    return rec(label, value=value, bound=bound)


def fits(v, b, ty="T"):
    return b_and(lt(b, BT(ty)), le(bitlen(ab(v, ty)), b))


def mx(a, b):
    return ite(pos(sub(b, a)), b, a)


def rng_range(v, e, ty="T"):
    """v in [-(2^(e-1) - 1), 2^(e-1)]"""
    h = sub(e, const(1))
    return b_or(le(bitlen(ab(v, ty)), h), b_and(eq0(psub(ab(v, ty), pow2(h)), "p"), b_not(sg(v, ty))))


ct = Book()

# ---- SecretSigned
@ct("C11", S + "new_positive")
def _(C, v, b):
    return dict(ret=("opt", b_and(lt(b, BT()), le(bitlen(v), b)), signed(SS, v, b)))


@ct("C11", S + "new_from_unsigned")
def _(C, v, b):
    return dict(ret=("opt", fits(v, b), signed(SS, v, b)))


@ct("C11", S + "new_from_abs", optional=True)
def _(C, v, b, neg):
    x = ite(tobool(neg), pneg(v), v)
    return dict(ret=("opt", fits(x, b), signed(SS, x, b)))


@ct("C11", S + "new_modulo")
def _(C, v, m, mb):
    n = atom(mk0("less", call("shr", "", m, const(1)), v))
    x = ite(n, psub(v, m), v)
    return dict(ret=("opt", fits(x, sub(mb, const(1))), signed(SS, x, sub(mb, const(1)))))


@ct("C11", S + "zero")
def _(C):
    return dict(ret=signed(SS, const(0), const(0)))


@ct("C11", S + "is_negative")
def _(C, a):
    return dict(ret=sg(V(a)))


@ct("C11", S + "bound")
def _(C, a):
    return dict(ret=B(a))


@ct("C11", S + "to_public")
def _(C, a):
    return dict(assume=inv(a), ret=signed(PS, V(a), B(a)))


@ct("C11", S + "neg")
def _(C, a):
    return dict(ret=signed(SS, pneg(V(a)), B(a)))


for p in (f"<&{SS}<T> as core::ops::Neg>::neg", f"<{SS}<T> as core::ops::Neg>::neg"):
    ct("C11", p)(lambda C, a: dict(ret=signed(SS, pneg(V(a)), B(a))))


@ct("C11", S + "abs_value")
def _(C, a):
    return dict(ret=ab(V(a)))


@ct("C11", S + "abs")
def _(C, a):
    return dict(assume=inv(a), ret=signed(SU, ab(V(a)), B(a)))


@ct("C11", S + "is_in_exponent_range", optional=True)
def _(C, a, e):
    return dict(assume=inv(a), ret=rng_range(V(a), e))


@ct("C11", S + "assert_exponent_range")
def _(C, a, e):
    return dict(assume=inv(a), aborts=b_not(rng_range(V(a), e)))


@ct("C11", S + "ensure_exponent_range")
def _(C, a, e):
    return dict(assume=inv(a), ret=("opt", b_and(lt(e, sub(BT(), const(1))), rng_range(V(a), e)), signed(SS, V(a), add(e, const(1)))))


def zext(x):
    return call("zext", "", x)


def resign(a, m, ty="T"):
    return ite(sg(V(a), ty), pneg(m), m)


@ct("C11", S + "to_wide")
def _(C, a):
    return dict(assume=b_and(inv(a), le(BT("T"), BT("W"))), ret=signed(SS, resign(a, zext(ab(V(a)))), B(a)))


@ct("C11", Pp + "to_wide")
def _(C, a):
    return dict(assume=b_and(inv(a), le(BT("T"), BT("W"))), ret=signed(PS, resign(a, zext(ab(V(a)))), B(a)))


@ct("C11", S + "mul_wide_public")
def _(C, a, b):
    m = pmul(zext(ab(V(a))), zext(ab(V(b), "R")))
    s = b_xor(sg(V(a)), sg(V(b), "R"))
    return dict(
        assume=b_and(inv(a), inv(b, "R"), le(add(BT("T"), BT("R")), BT("W"))),
        ret=signed(SS, ite(s, pneg(m), m), add(B(a), B(b))),
    )


def maxb(a, b):
    return add(mx(B(a), B(b)), const(1))


CA, CS, CM = "crypto_bigint::CheckedAdd", "crypto_bigint::CheckedSub", "crypto_bigint::CheckedMul"
for rhs in ("", f"<{PS}<T>>"):
    ct("C11", f"<{SS}<T> as {CA}{rhs}>::checked_add")(
        lambda C, a, b: dict(ret=("opt", lt(maxb(a, b), BT()), signed(SS, padd(V(a), V(b)), maxb(a, b))))
    )
    ct("C11", f"<{SS}<T> as {CM}{rhs}>::checked_mul")(
        lambda C, a, b: dict(ret=("opt", lt(add(B(a), B(b)), BT()), signed(SS, pmul(V(a), V(b)), add(B(a), B(b)))))
    )
ct("C11", f"<{SS}<T> as {CS}>::checked_sub")(
    lambda C, a, b: dict(ret=("opt", lt(maxb(a, b), BT()), signed(SS, psub(V(a), V(b)), maxb(a, b))))
)
for rhs in ("", f"<&{SS}<T>>", f"<{PS}<T>>"):
    ct("C11", f"<{SS}<T> as core::ops::Add{rhs}>::add")(
        lambda C, a, b: dict(aborts=b_not(lt(maxb(a, b), BT())), ret=signed(SS, padd(V(a), V(b)), maxb(a, b)))
    )
    ct("C11", f"<{SS}<T> as core::ops::Mul{rhs}>::mul")(
        lambda C, a, b: dict(aborts=b_not(lt(add(B(a), B(b)), BT())), ret=signed(SS, pmul(V(a), V(b)), add(B(a), B(b))))
    )
ct("C11", f"<&{SS}<T> as core::ops::Mul<{PS}<T>>>::mul")(
    lambda C, a, b: dict(aborts=b_not(lt(add(B(a), B(b)), BT())), ret=signed(SS, pmul(V(a), V(b)), add(B(a), B(b))))
)
ct("C11", f"<{SS}<T> as core::ops::Sub>::sub")(
    lambda C, a, b: dict(aborts=b_not(lt(maxb(a, b), BT())), ret=signed(SS, psub(V(a), V(b)), maxb(a, b)))
)


# ---- sampling
def expbad(e, ty="T"):
    return b_or(eq(e, const(0)), le(BT(ty), e))


@ct("C30", S + "random_in_exponent_range")
def _(C, rng, e):
    h = pow2(sub(e, const(1)))
    return dict(aborts=expbad(e), ret=signed(SS, psub(draw(0, RM, "T", pow2(e)), psub(h, const(1))), e))


def scaled(wide):
    def f(C, rng, e, s):
        h = pow2(sub(e, const(1)))
        z = zext(s)
        return dict(
            assume=b_and(b_not(eq0(z, "p")), le(BT("T"), BT(wide))),
            aborts=expbad(e),
            ret=signed(SS, psub(draw(0, RM, wide, pmul(z, pow2(e))), psub(pmul(z, h), const(1))), add(e, bitlen(s))),
        )

    return f


ct("C30", S + "random_in_exponent_range_scaled")(scaled("W"))
ct("C30", S + "random_in_exponent_range_scaled_wide")(scaled("XW"))


# ---- PublicSigned
@ct("C11", Pp + "new_from_abs", optional=True)
def _(C, v, b, neg):
    return dict(ret=("opt", b_and(lt(b, BT()), le(bitlen(v), b)), signed(PS, ite(tobool(neg), pneg(v), v), b)))


@ct("C11", Pp + "new_positive")
def _(C, v, b):
    return dict(ret=("opt", b_and(lt(b, BT()), le(bitlen(v), b)), signed(PS, v, b)))


@ct("C11", Pp + "new_from_unsigned")
def _(C, v, b):
    return dict(ret=("opt", fits(v, b), signed(PS, v, b)))


ct("C11", Pp + "one")(lambda C: dict(ret=signed(PS, const(1), const(1))))
ct("C11", Pp + "zero")(lambda C: dict(ret=signed(PS, const(0), const(0))))
ct("C11", Pp + "is_negative")(lambda C, a: dict(ret=sg(V(a))))
ct("C11", Pp + "abs")(lambda C, a: dict(ret=ab(V(a))))
ct("C11", Pp + "bound")(lambda C, a: dict(ret=B(a)))
ct("C11", Pp + "value")(lambda C, a: dict(ret=V(a)))
ct("C11", Pp + "neg")(lambda C, a: dict(ret=signed(PS, pneg(V(a)), B(a))))
ct("C11", f"<{PS}<T> as core::ops::Neg>::neg")(lambda C, a: dict(ret=signed(PS, pneg(V(a)), B(a))))
ct("C11", Pp + "is_in_exponent_range")(lambda C, a, e: dict(ret=rng_range(V(a), e)))
ct("C03", Pp + "is_in_exponent_range")(lambda C, a, e: dict(ret=rng_range(V(a), e)))


# ---- SecretUnsigned
ct("C11", U + "is_zero")(lambda C, a: dict(ret=eq0(V(a), "p")))
ct("C11", U + "bound")(lambda C, a: dict(ret=B(a)))
ct("C11", U + "expose_secret")(lambda C, a: dict(ret=V(a)))
ct("C11", U + "new")(lambda C, v, b: dict(ret=("opt", b_and(le(b, BT()), le(bitlen(v), b)), signed(SU, v, b))))
ct("C11", U + "add_mod")(
    lambda C, a, b, m: dict(ret=signed(SU, call("crypto_bigint::AddMod::add_mod", "T", V(a), V(b), m), bitlen(m)))
)
ct("C11", f"<&{SU}<T> as core::ops::BitAnd<T>>::bitand")(
    lambda C, a, m: dict(ret=signed(SU, call("and", "", *sorted((V(a), m), key=lambda t: t.id)), B(a)))
)
ct("C11", U + "to_wide")(lambda C, a: dict(ret=signed(SU, zext(V(a)), B(a))))


# ---- packed form
def ceil8(n):
    return mk0("bin", "Div", add(n, const(7)), const(8))


PK = "uint::public_signed::PackedSigned"


@ct("C18", f"<{PK} as core::convert::From<{PS}<T>>>::from")
def _(C, a):
    return dict(ret=rec(PK, bound=B(a), is_negative=sg(V(a)), abs_bytes=call("below", "", ab(V(a)), ceil8(B(a)))))


@ct("C18", f"<{PS}<T> as core::convert::TryFrom<{PK}>>::try_from")
def _(C, a):
    bs = fld(a, "abs_bytes")
    v = beint(bs)
    good = b_and(le(length(bs), bytes_of("T")), lt(B(a), BT()), le(bitlen(v), B(a)))
    return dict(ret=("res", good, signed(PS, ite(tobool(fld(a, "is_negative")), pneg(v), v), B(a))))


DES = "serde_encoded_bytes::SliceLike::<Enc>::deserialize"


# ---- traits
XOF = "digest::XofReader::read"


def xofbytes(reader, n):
    return mk0("upd", XOF, 1, reader, mk0("repeat", const(0), ceil8(n)))


def xofrest(reader, n):
    return mk0("upd", XOF, 0, reader, mk0("repeat", const(0), ceil8(n)))


def xofint(C, reader, n):
    R = C.canon(xofbytes(reader, n))
    k = C.canon(mk0("bin", "Rem", n, const(8)))
    masked = updix(R, const(0), lowbits(elem(R, const(0)), k))
    return ite(b_and(C.posp(C.canon(ceil8(n))), b_not(C.eqp(k, const(0)))), beint(masked), beint(R))


@ct(("C30", "C01"), "<T as uint::traits::FromXofReader>::from_xof_reader")
def _(C, r, n):
    return dict(aborts=lt(BT(), n), ret=xofint(C, r, n), mem={0: xofrest(r, n)})


FX = "uint::traits::FromXofReader::from_xof_reader"


@ct(("C30", "C01"), Pp + "from_xof_reader_in_exponent_range", leaf=(r".*FromXofReader.*::from_xof_reader",))
def _(C, r, e):
    # (range of the expanded integer: [0, 2^e))
    x = mk0("call", FX, "T", r, e)
    y = psub(x, psub(pow2(sub(e, const(1))), const(1)))
    return dict(assume=le(bitlen(ab(y)), e), aborts=expbad(e), ret=signed(PS, y, e), mem={0: mk0("upd", FX, 0, r, e)})


@ct(("C12", "C14", "C30"), "<T as uint::traits::IsInvertible>::is_invertible")
def _(C, a, m):
    return dict(ret=eq0(psub(call("crypto_bigint::Gcd::gcd", "T", a, m), const(1)), "p"))


PBE = "crypto_bigint::PowBoundedExp::pow_bounded_exp"


def powb(x, v, b):
    return call(PBE, "T", x, v, b)


def inverse(x):
    i = call("crypto_bigint::Invert::invert", "T", x)
    return is_some(i), fld(i, "Some.0")


EXP = ("C12", "C14")


@ct(EXP, "<T as uint::traits::Exponentiable<uint::public_signed::PublicSigned<V>>>::pow")
def _(C, x, e):
    p = powb(x, ab(V(e), "V"), B(e))
    has, i = inverse(p)
    # a result exists: no inverse is needed, or there is one
    return dict(aborts=b_and(sg(V(e), "V"), b_not(has)), ret=ite(sg(V(e), "V"), i, p))


@ct(EXP, "<T as uint::traits::Exponentiable<uint::secret_signed::SecretSigned<V>>>::pow")
def _(C, x, e):
    p = powb(x, ab(V(e), "V"), B(e))
    has, i = inverse(p)
    return dict(assume=b_and(inv(e, "V"), has), ret=ite(sg(V(e), "V"), i, p))


@ct(EXP, "<T as uint::traits::Exponentiable<uint::secret_unsigned::SecretUnsigned<V>>>::pow")
def _(C, x, e):
    return dict(ret=powb(x, V(e), B(e)))


UI = "crypto_bigint::Uint"


@ct(("C11", "C17"), f"<{UI}<L> as uint::traits::Extendable<{UI}<W>>>::to_wide")
def _(C, a):
    return dict(ret=a)


@ct(("C11", "C17"), f"<{UI}<L> as uint::traits::Extendable<{UI}<W>>>::try_from_wide")
def _(C, a):
    L = mul(const(64), ws("L"))
    return dict(ret=("opt", le(bitlen(a), L), call("low", "", a, L)))


@ct(("C11", "C12"), f"<{UI}<L> as uint::traits::MulWide<{UI}<R>, {UI}<W>>>::mul_wide")
def _(C, a, b):
    return dict(ret=padd(call("mullo", "", a, b), pmul(call("mulhi", "", a, b), pow2(mul(const(64), ws("L"))))))


@ct("C18", f"<{UI}<L> as uint::traits::BoxedEncoding>::to_be_bytes")
def _(C, a):
    return dict(ret=be(a, mul(const(8), ws("L"))))


@ct("C18", f"<{UI}<L> as uint::traits::BoxedEncoding>::try_from_be_bytes")
def _(C, a):
    return dict(ret=("res", eq(length(a), mul(const(8), ws("L"))), beint(a)))


@ct("C18", "<uint::public_uint::PublicUint<T> as serde::Serialize>::serialize")
def _(C, a, s):
    return dict(ret=call("serde_encoded_bytes::SliceLike::<Enc>::serialize", "", be(a, bytes_of("T")), s))


@ct("C18", "<uint::public_uint::PublicUint<T> as serde::Deserialize<'de>>::deserialize")
def _(C, d):
    x = call(DES, "", d)
    bs = fld(x, "Ok.0")
    return dict(ret=("res", b_and(is_ok(x), eq(length(bs), bytes_of("T"))), beint(bs)))


run = ct.run
if __name__ == "__main__":
    ct.main()
