"""Contracts of src/paillier (C12-C15, C18, C30)."""
from ..low import *
from ..terms import close

PP = "paillier::params::PaillierParams"
H, U, W = (f"<P as {PP}>::{x}" for x in ("HalfUint", "Uint", "WideUint"))
PRIME_BITS = mk0("const", f"<P as {PP}>::PRIME_BITS")
MODULUS_BITS = mk0("const", f"<P as {PP}>::MODULUS_BITS")
CBI = "crypto_bigint::"
RSA, KEY, ENC, RP = (f"paillier::{x}::" for x in ("rsa", "keys", "encryption", "ring_pedersen"))
SPW, SP, PMW, PM = (RSA + x for x in ("SecretPrimesWire", "SecretPrimes", "PublicModulusWire", "PublicModulus"))
SKW, SK, PKW, PK = (KEY + x for x in ("SecretKeyPaillierWire", "SecretKeyPaillier", "PublicKeyPaillierWire", "PublicKeyPaillier"))
CT, CTW, RND, MRND = (ENC + x for x in ("Ciphertext", "CiphertextWire", "Randomizer", "MaskedRandomizer"))
RPS, RPP, RPW, RPC, RPCW = (RP + x for x in ("RPSecret", "RPParams", "RPParamsWire", "RPCommitment", "RPCommitmentWire"))
SU, SS, PS = "uint::secret_unsigned::SecretUnsigned", "uint::secret_signed::SecretSigned", "uint::public_signed::PublicSigned"


def g(t):
    return t + "::<P>::"


def M(t):
    return f"<{t} as {CBI}Integer>::Monty"


def zext(x):
    return call("zext", "", x)


def params(ty, n):
    return call(CBI + "Monty::new_params_vartime", M(ty), n)


def monty(ty, x, p):
    return call(CBI + "Monty::new", M(ty), x, p)


def one(ty, p):
    return call(CBI + "Monty::one", M(ty), p)


def retr(ty, x):
    return call(CBI + "modular::Retrieve::retrieve", M(ty), x)


def invert(ty, x):
    return fld(call(CBI + "Invert::invert", M(ty), x), "Some.0")


def powb(ty, x, e, b):
    return call(CBI + "PowBoundedExp::pow_bounded_exp", M(ty), x, e, b)


def expo(ty, x, e):
    return call("uint::traits::Exponentiable::pow", M(ty), x, e)


def narrow(ty, x):
    return fld(call("uint::traits::Extendable::try_from_wide", ty, x), "Some.0")


def isodd(x):
    return atom(mk0("isodd", x))


def f(x, *path):
    for n in path:
        x = fld(x, n)
    return x


def until(cond, val):
    iv = fresh_iv()
    bv, e, b = close(iv, cond(iv), val(iv))
    return mk0("until", bv, e, b)


ONE = const(1)
ct = Book()
RM = CBI + "RandomMod::random_mod"
SAFE = "crypto_primes::RandomPrimeWithRng::generate_safe_prime_with_rng"
FIND, SIEVE = "crypto_primes::sieve_and_find", "crypto_primes::hazmat::SmallPrimesSieveFactory::<T>::new"


# ---- primes
def blum(k):
    """A random prime of PRIME_BITS bits with the two highest bits set, congruent to 3 modulo 4."""
    isprime = mk0("fndef", f"crypto_primes::is_prime_with_rng[{H},dyn rand_core::CryptoRngCore]")
    two = agg("crypto_primes::hazmat::SetBits::TwoMsb", (), [])
    d = lambda i: draw(k, FIND, "", call(SIEVE, "", PRIME_BITS, two), isprime, ivs=(i,))
    x = lambda i: fld(d(i), "Some.0")
    low = lambda i: fld(elem(x(i), const(0)), "0")
    return until(
        lambda i: eq0(psub(const(3), mk0("bin", "Rem", low(i), const(4))), "p"),
        x,
    )


def safe(k):
    return draw(k, SAFE, H, PRIME_BITS)


ct("C15", RSA + "random_paillier_blum_prime")(lambda C, r: dict(ret=blum(0), aborts=None))
ct("C15", g(SPW) + "random_paillier_blum")(lambda C, r: dict(ret=rec(SPW, p=blum(0), q=blum(1)), aborts=None))


def distinct(x):
    return x


ct("C15", g(SPW) + "random_safe")(lambda C, r: dict(ret=rec(SPW, p=safe(0), q=safe(1)), aborts=None))
ct("C15", g(SPW) + "new")(lambda C, p, q: dict(ret=rec(SPW, p=p, q=q)))


def modulus(pr):
    return pmul(zext(f(pr, "p")), zext(f(pr, "q")))


def totient(pr):
    return pmul(zext(psub(f(pr, "p"), ONE)), zext(psub(f(pr, "q"), ONE)))


def pmw(n):
    return agg(PMW, ("0",), [n])


def pmodulus(n):
    return agg(PM, ("modulus", "monty_params_mod_n"), [pmw(n), params(U, n)])


def sprimes(pr):
    return rec(SP, primes=pr, totient=totient(pr))


ct("C15", [g(SPW) + "modulus", g(PMW) + "new"])(lambda C, s: dict(ret=rec(PMW, **{"0": modulus(s)})))
ct("C15", [g(SPW) + "into_precomputed", g(SP) + "new"])(
    lambda C, s: dict(ret=sprimes(s), aborts=b_or(C.iszero(f(s, "p")), C.iszero(f(s, "q"))))
)
ct("C15", g(SP) + "into_wire")(lambda C, s: dict(ret=f(s, "primes")))
ct("C15", g(SP) + "modulus_wire")(lambda C, s: dict(ret=rec(PMW, **{"0": modulus(f(s, "primes"))})))
for w in "pq":
    ct("C15", g(SP) + f"{w}_half")(lambda C, s, w=w: dict(ret=f(s, "primes", w)))
    ct("C15", g(SP) + f"{w}_half_odd")(lambda C, s, w=w: dict(ret=f(s, "primes", w), aborts=b_not(isodd(f(s, "primes", w)))))
    ct("C15", g(SP) + w)(lambda C, s, w=w: dict(ret=zext(f(s, "primes", w))))
    ct("C15", g(SP) + f"{w}_nonzero")(lambda C, s, w=w: dict(ret=zext(f(s, "primes", w)), aborts=C.iszero(zext(f(s, "primes", w)))))
    ct("C15", [g(SP) + f"{w}_signed"])(lambda C, s, w=w: dict(ret=rec(SS, bound=PRIME_BITS, value=zext(f(s, "primes", w))), aborts=None))
    ct("C15", [g(SK) + f"{w}_signed"])(lambda C, s, w=w: dict(ret=rec(SS, bound=PRIME_BITS, value=zext(f(s, "primes", "primes", w))), aborts=None))
ct("C15", g(SP) + "totient")(lambda C, s: dict(ret=f(s, "totient")))
ct("C15", g(SP) + "totient_nonzero")(lambda C, s: dict(ret=f(s, "totient"), aborts=C.iszero(f(s, "totient"))))
ct("C15", g(SP) + "totient_unsigned", optional=True)(lambda C, s: dict(ret=rec(SU, bound=MODULUS_BITS, value=f(s, "totient")), aborts=None))
ct("C15", g(SP) + "totient_wide_unsigned")(lambda C, s: dict(ret=rec(SU, bound=MODULUS_BITS, value=zext(f(s, "totient"))), aborts=None))
ct("C15", g(SK) + "totient_wide_unsigned")(lambda C, s: dict(ret=rec(SU, bound=MODULUS_BITS, value=zext(f(s, "primes", "totient"))), aborts=None))
ct(("C15", "C30"), g(SP) + "random_residue_mod_totient")(
    lambda C, s, r: dict(ret=rec(SU, bound=MODULUS_BITS, value=draw(0, RM, U, f(s, "totient"))), aborts=None)
)
ct(("C14", "C30"), g(RPS) + "random_residue_mod_totient")(
    lambda C, s, r: dict(ret=rec(SU, bound=MODULUS_BITS, value=draw(0, RM, U, f(s, "primes", "totient"))), aborts=None)
)

# ---- moduli
ct("C15", [g(PMW) + "into_precomputed", g(PM) + "new"])(
    lambda C, s: dict(ret=rec(PM, modulus=s, monty_params_mod_n=params(U, f(s, "0"))), aborts=b_not(isodd(f(s, "0"))))
)
ct("C15", g(PM) + "to_wire")(lambda C, s: dict(ret=f(s, "modulus")))
ct("C15", g(PMW) + "modulus")(lambda C, s: dict(ret=f(s, "0")))
ct("C15", g(PM) + "modulus")(lambda C, s: dict(ret=f(s, "modulus", "0")))
ct("C15", g(PM) + "modulus_nonzero")(lambda C, s: dict(ret=f(s, "modulus", "0"), aborts=C.iszero(f(s, "modulus", "0"))))
ct("C15", g(PM) + "modulus_signed")(lambda C, s: dict(ret=rec(PS, bound=MODULUS_BITS, value=zext(f(s, "modulus", "0"))), aborts=None))
ct("C15", g(PM) + "monty_params_mod_n")(lambda C, s: dict(ret=f(s, "monty_params_mod_n")))
ct("C13", f"<{PM}<P> as core::cmp::PartialEq>::eq")(lambda C, a, b: dict(ret=eq0(psub(f(a, "modulus"), f(b, "modulus")), "p")))
ct("C13", f"<{PK}<P> as core::cmp::PartialEq>::eq")(
    lambda C, a, b: dict(ret=eq0(psub(f(a, "modulus", "modulus"), f(b, "modulus", "modulus")), "p"))
)
ct("C13", f"<{PMW}<P> as core::cmp::PartialEq>::eq")(lambda C, a, b: dict(ret=eq0(psub(f(a, "0"), f(b, "0")), "p")))


def unit(C, n):
    """A random invertible residue modulo n."""
    d = lambda i: draw(0, RM, U, n, ivs=(i,))
    return until(lambda i: C.eqp(call(CBI + "Gcd::gcd", U, d(i), n), ONE), d)


def square(C, n, p):
    x = monty(U, unit(C, n), p)
    return pmul(x, x)


ct("C30", g(PM) + "random_invertible_residue")(lambda C, s, r: dict(ret=unit(C, f(s, "modulus", "0")), aborts=C.iszero(f(s, "modulus", "0"))))
ct("C30", g(PK) + "random_invertible_residue")(
    lambda C, s, r: dict(ret=unit(C, f(s, "modulus", "modulus", "0")), aborts=C.iszero(f(s, "modulus", "modulus", "0")))
)
FX = "uint::traits::FromXofReader::from_xof_reader"


def xresidue(C, n, r):
    """An invertible residue modulo n expanded from a hash: the first drawn integer below n that is invertible."""
    bits = bitlen(n)
    acc = mk0("accsym", fresh_iv())
    st = lambda i: fold(i, fresh_iv(), acc, r, mk0("upd", FX, 0, acc, bits))
    d = lambda i: call(FX, U, st(i), bits)
    ok = lambda i: b_and(C.less(d(i), n), C.eqp(call(CBI + "Gcd::gcd", U, d(i), n), ONE))
    return dict(ret=until(ok, d), mem={1: until(ok, lambda i: mk0("upd", FX, 0, st(i), bits))})


ct(("C30", "C01"), g(PM) + "invertible_residue_from_xof_reader", leaf=(r".*FromXofReader.*::from_xof_reader",))(lambda C, s, r: xresidue(C, f(s, "modulus", "0"), r))
ct(("C30", "C01"), g(PK) + "invertible_residue_from_xof_reader", leaf=(r".*FromXofReader.*::from_xof_reader",))(
    lambda C, s, r: xresidue(C, f(s, "modulus", "modulus", "0"), r)
)
ct(("C30", "C14"), g(PM) + "random_quadratic_residue")(
    lambda C, s, r: dict(ret=square(C, f(s, "modulus", "0"), f(s, "monty_params_mod_n")), aborts=C.iszero(f(s, "modulus", "0")))
)


# ---- Paillier keys
def pk(n):
    N = zext(n)
    p2 = params(W, pmul(N, N))
    return dict(
        modulus=pmodulus(n),
        monty_params_mod_n_squared=p2,
        modulus_mod_modulus_squared=monty(W, N, p2),
        public_key_wire=agg(PKW, ("modulus",), [pmw(n)]),
    )


ct("C15", g(SKW) + "random")(lambda C, r: dict(ret=rec(SKW, primes=agg(SPW, ("p", "q"), [blum(0), blum(1)])), aborts=None))
ct("C15", g(PKW) + "new")(lambda C, s: dict(ret=rec(PKW, modulus=pmw(modulus(s)))))
ct("C15", g(SKW) + "public_key")(lambda C, s: dict(ret=rec(PKW, modulus=pmw(modulus(f(s, "primes"))))))
ct("C15", g(PKW) + "into_precomputed")(lambda C, s: dict(ret=rec(PK, **dict(pk(f(s, "modulus", "0")), modulus=agg(PM, ("modulus", "monty_params_mod_n"), [f(s, "modulus"), params(U, f(s, "modulus", "0"))]), public_key_wire=agg(PKW, ("modulus",), [f(s, "modulus")]))), aborts=None))
ct("C15", g(PK) + "new")(
    lambda C, s: dict(ret=rec(PK, **dict(pk(f(s, "modulus", "0")), modulus=s, public_key_wire=agg(PKW, ("modulus",), [f(s, "modulus")]))), aborts=None)
)


@ct("C15", [g(SK) + "new", g(SKW) + "into_precomputed"])
def _(C, s):
    pr = f(s, "primes")
    p, q = f(pr, "p"), f(pr, "q")
    n, phi = modulus(pr), totient(pr)
    mp, mq, mn = params(H, p), params(H, q), params(U, n)
    pinv = invert(H, monty(H, p, mq))
    t = psub(padd(pinv, pinv), one(H, mq))
    u = psub(padd(pmul(zext(p), zext(retr(H, t))), zext(p)), ONE)
    return dict(
        aborts=None,
        ret=rec(
            SK,
            primes=sprimes(pr),
            inv_totient=invert(U, monty(U, phi, mn)),
            inv_modulus=rec(SU, bound=MODULUS_BITS, value=fld(call(CBI + "InvMod::inv_mod", U, n, phi), "Some.0")),
            inv_p_mod_q=pinv,
            nonsquare_sampling_constant=monty(U, u, mn),
            monty_params_mod_p=mp,
            monty_params_mod_q=mq,
            public_key=rec(PK, **pk(n)),
        ),
    )


ct("C15", g(SK) + "into_wire")(lambda C, s: dict(ret=rec(SKW, primes=f(s, "primes", "primes"))))
for k in ("inv_totient", "inv_modulus", "public_key"):
    ct("C15", g(SK) + k)(lambda C, s, k=k: dict(ret=f(s, k)))
for k in ("monty_params_mod_n_squared", "modulus_mod_modulus_squared"):
    ct("C12", g(PK) + k)(lambda C, s, k=k: dict(ret=f(s, k)))
ct(("C12", "C01"), [g(PK) + "as_wire", g(PK) + "into_wire"])(lambda C, s: dict(ret=f(s, "public_key_wire")))
ct("C12", [g(PK) + "modulus", g(RPP) + "modulus"])(lambda C, s: dict(ret=f(s, "modulus", "modulus", "0")))
ct("C12", [g(PKW) + "modulus", g(RPW) + "modulus"])(lambda C, s: dict(ret=f(s, "modulus", "0")))
ct("C12", g(PK) + "modulus_nonzero")(lambda C, s: dict(ret=f(s, "modulus", "modulus", "0"), aborts=C.iszero(f(s, "modulus", "modulus", "0"))))
ct("C12", g(PK) + "modulus_wide_nonzero")(
    lambda C, s: dict(ret=zext(f(s, "modulus", "modulus", "0")), aborts=C.iszero(zext(f(s, "modulus", "modulus", "0"))))
)
ct("C12", g(PK) + "modulus_signed")(lambda C, s: dict(ret=rec(PS, bound=MODULUS_BITS, value=zext(f(s, "modulus", "modulus", "0"))), aborts=None))
ct("C12", [g(PK) + "monty_params_mod_n", g(RPP) + "monty_params_mod_n"])(lambda C, s: dict(ret=f(s, "modulus", "monty_params_mod_n")))


def split(s, x, w):
    return monty(H, narrow(H, call("mod", "", x, zext(f(s, "primes", "primes", w)))), f(s, f"monty_params_mod_{w}"))


ct("C15", g(SK) + "rns_split")(lambda C, s, x: dict(ret=rec("", **{"0": split(s, x, "p"), "1": split(s, x, "q")}), aborts=None))


def root(C, x, m):
    c = powb(H, x, padd(call("shr", "", m, const(2)), ONE), sub(PRIME_BITS, ONE))
    return eq0(psub(pmul(c, c), x), "p"), c


@ct("C15", g(SK) + "sqrt_part")
def _(C, s, x, m):
    ok, c = root(C, x, m)
    return dict(ret=rec("", **{"0": c, "1": ok}))


@ct("C15", g(SK) + "rns_sqrt")
def _(C, s, x):
    a, b = (root(C, f(x, i), f(s, "primes", "primes", w)) for i, w in (("0", "p"), ("1", "q")))
    return dict(ret=("opt", b_and(a[0], b[0]), rec("", **{"0": a[1], "1": b[1]})))


@ct("C15", g(SK) + "rns_join")
def _(C, s, x):
    """Garner: a + p ((b - a) p^-1 mod q)"""
    a, b, mq, p = f(x, "0"), f(x, "1"), f(s, "monty_params_mod_q"), f(s, "primes", "primes", "p")
    d = pmul(psub(b, monty(H, retr(H, a), mq)), f(s, "inv_p_mod_q"))
    return dict(ret=padd(zext(retr(H, a)), pmul(zext(p), zext(retr(H, d)))), aborts=None)


@ct(("C15", "C30"), g(SK) + "random_nonsquare_residue")
def _(C, s, r):
    m = f(s, "public_key", "modulus")
    w = pmul(square(C, f(m, "modulus", "0"), f(m, "monty_params_mod_n")), f(s, "nonsquare_sampling_constant"))
    bit = mk0("bin", "Rem", draw(1, "rand_core::RngCore::next_u32", ""), const(2))
    return dict(ret=ite(eq0(psub(bit, ONE), "p"), retr(U, pneg(w)), retr(U, w)), aborts=None)


# ---- encryption
def encrypt(C, pkey, m, neg, r):
    """(1 + N m) r^N modulo N^2"""
    p2 = f(pkey, "monty_params_mod_n_squared")
    N = f(pkey, "modulus", "modulus", "0")
    prod = pmul(monty(W, m, p2), f(pkey, "modulus_mod_modulus_squared"))
    fac = padd(ite(neg, pneg(prod), prod), one(W, p2))
    base = monty(W, zext(r), p2)
    rn = powb(W, base, zext(N), MODULUS_BITS)
    return rec(CT, pk=pkey, ciphertext=pmul(fac, rn))


def nonneg_modulus(C, pkey):
    """An integer zero-extended to twice its size has its sign bit clear."""
    N = f(pkey, "modulus", "modulus", "0")
    return b_not(negsign(W, zext(N)))


for nm, m, ty in (("new_with_randomizer", zext, U), ("new_wide_with_randomizer", lambda x: x, W)):
    ct("C12", g(CT) + nm)(
        lambda C, k, x, r, m=m, ty=ty: dict(
            assume=nonneg_modulus(C, k), aborts=None, ret=encrypt(C, k, m(sabs(ty, f(x, "value"))), negsign(ty, f(x, "value")), f(r, "randomizer"))
        )
    )
    ct("C12", g(CT) + nm.replace("new_", "new_public_"))(
        lambda C, k, x, r, m=m, ty=ty: dict(
            assume=nonneg_modulus(C, k), aborts=None, ret=encrypt(C, k, m(sabs(ty, f(x, "value"))), negsign(ty, f(x, "value")), f(r, "0"))
        )
    )


def keys_match(a, b):
    return eq0(psub(f(a, "modulus", "modulus"), f(b, "modulus", "modulus")), "p")


@ct(("C12", "C13"), g(CT) + "decrypt")
def _(C, c, sk):
    k = f(sk, "public_key")
    p2 = f(k, "monty_params_mod_n_squared")
    N = f(k, "modulus", "modulus", "0")
    t = powb(W, f(c, "ciphertext"), zext(f(sk, "primes", "totient")), MODULUS_BITS)
    x = narrow(U, call("core::ops::Div::div", W, retr(W, psub(t, one(W, p2))), zext(N)))
    m = retr(U, pmul(monty(U, x, f(k, "modulus", "monty_params_mod_n")), f(sk, "inv_totient")))
    v = ite(atom(mk0("less", call("shr", "", N, ONE), m)), psub(m, N), m)
    return dict(ret=rec(SS, value=v, bound=sub(MODULUS_BITS, ONE)), aborts=None, must_abort=b_not(keys_match(f(c, "pk"), k)))


@ct(("C12", "C13"), g(CT) + "derive_randomizer")
def _(C, c, sk):
    k = f(sk, "public_key")
    N = f(k, "modulus", "modulus", "0")
    cn = narrow(U, call("mod", "", retr(W, f(c, "ciphertext")), zext(N)))
    r = powb(U, monty(U, cn, f(k, "modulus", "monty_params_mod_n")), f(sk, "inv_modulus", "value"), f(sk, "inv_modulus", "bound"))
    return dict(ret=rec(RND, randomizer=retr(U, r), randomizer_mod=r), aborts=None, must_abort=b_not(keys_match(f(c, "pk"), k)))


CTP = f"{CT}<P>"
for p in (
    f"<&{CTP} as core::ops::Add<&{CTP}>>::add",
    f"<{CTP} as core::ops::Add<&{CTP}>>::add",
    f"<{CTP} as core::ops::Add>::add",
    g(CT) + "homomorphic_add",
    g(CT) + "homomorphic_add_ref",
):
    ct(("C12", "C13"), p, optional="homomorphic" in p)(
        lambda C, a, b: dict(
            ret=rec(CT, pk=f(a, "pk"), ciphertext=pmul(f(a, "ciphertext"), f(b, "ciphertext"))), aborts=b_not(keys_match(f(a, "pk"), f(b, "pk")))
        )
    )
ct(("C12", "C13"), f"<{CTP} as core::ops::Sub<&{CTP}>>::sub")(
    lambda C, a, b: dict(
        ret=rec(CT, pk=f(a, "pk"), ciphertext=pmul(f(a, "ciphertext"), invert(W, f(b, "ciphertext")))),
        aborts=None,
        must_abort=b_not(keys_match(f(a, "pk"), f(b, "pk"))),
    )
)
for p in (f"<&{CTP} as core::ops::Mul<&V>>::mul", f"<{CTP} as core::ops::Mul<&V>>::mul", g(CT) + "homomorphic_mul", g(CT) + "homomorphic_mul_ref"):
    ct(("C12", "C13"), p, optional="homomorphic" in p)(lambda C, a, e: dict(ret=rec(CT, pk=f(a, "pk"), ciphertext=expo(W, f(a, "ciphertext"), e))))
ct("C12", g(CT) + "homomorphic_neg_ref", optional=True)(
    lambda C, a: dict(ret=rec(CT, pk=f(a, "pk"), ciphertext=invert(W, f(a, "ciphertext"))), aborts=None)
)
ct(("C12", "C13"), f"<{CTP} as core::cmp::PartialEq>::eq")(
    lambda C, a, b: dict(ret=b_and(keys_match(f(a, "pk"), f(b, "pk")), eq0(psub(f(a, "ciphertext"), f(b, "ciphertext")), "p")))
)
ct("C12", g(CT) + "public_key")(lambda C, a: dict(ret=f(a, "pk")))
ct(("C12", "C18"), g(CT) + "to_wire")(lambda C, a: dict(ret=rec(CTW, ciphertext=retr(W, f(a, "ciphertext")))))
ct(("C12", "C13", "C18"), g(CTW) + "to_precomputed")(
    lambda C, a, k: dict(ret=rec(CT, pk=k, ciphertext=monty(W, f(a, "ciphertext"), f(k, "monty_params_mod_n_squared"))))
)


def randomizer(k, x):
    return rec(RND, randomizer=x, randomizer_mod=monty(U, x, f(k, "modulus", "monty_params_mod_n")))


ct("C12", g(RND) + "new")(lambda C, k, x: dict(ret=randomizer(k, x)))
ct("C12", g(RND) + "new_mod")(lambda C, x: dict(ret=rec(RND, randomizer=retr(U, x), randomizer_mod=x)))
ct(("C12", "C30"), g(RND) + "random")(
    lambda C, r, k: dict(ret=randomizer(k, unit(C, f(k, "modulus", "modulus", "0"))), aborts=C.iszero(f(k, "modulus", "modulus", "0")))
)


@ct("C12", g(RND) + "to_masked")
def _(C, a, c, e):
    return dict(ret=rec(MRND, **{"0": retr(U, pmul(expo_signed(C, U, f(a, "randomizer_mod"), e), f(c, "randomizer_mod")))}), aborts=None)


def expo_signed(C, ty, x, e):
    n = negsign(ty, f(e, "value"))
    up = powb(ty, x, f(e, "value"), f(e, "bound"))
    dn = invert(ty, powb(ty, x, pneg(f(e, "value")), f(e, "bound")))
    return ite(n, dn, up)


# ---- ring-Pedersen
@ct("C14", g(RPS) + "random")
def _(C, r):
    p, q = safe(0), safe(1)
    phi = pmul(zext(psub(p, ONE)), zext(psub(q, ONE)))
    return dict(
        aborts=None,
        ret=rec(
            RPS,
            primes=rec(SP, primes=rec(SPW, p=p, q=q), totient=phi),
            **{"lambda": rec(SU, bound=sub(MODULUS_BITS, const(2)), value=draw(2, RM, U, call("shr", "", phi, const(2))))},
        ),
    )


@ct("C14", g(RPP) + "random_with_secret")
def _(C, r, s):
    n = modulus(f(s, "primes", "primes"))
    t = square(C, n, params(U, n))
    lam = f(s, "lambda")
    return dict(aborts=None, ret=rec(RPP, modulus=pmodulus(n), base_randomizer=t, base_value=powb(U, t, f(lam, "value"), f(lam, "bound"))))


@ct("C14", g(RPP) + "random", leaf=(re.escape(g(RPP) + "random_with_secret"), re.escape(g(RPS) + "random")))
def _(C, r):
    return dict(aborts=None, ret=draw(0, g(RPP) + "random_with_secret", "", draw(1, g(RPS) + "random", "P")))


ct("C14", g(RPS) + "lambda")(lambda C, s: dict(ret=f(s, "lambda")))
ct("C14", g(RPS) + "totient_nonzero")(lambda C, s: dict(ret=f(s, "primes", "totient"), aborts=C.iszero(f(s, "primes", "totient"))))
ct("C14", g(RPS) + "modulus")(lambda C, s: dict(ret=modulus(f(s, "primes", "primes"))))
ct("C14", g(RPP) + "base_randomizer")(lambda C, s: dict(ret=f(s, "base_randomizer")))
ct("C14", g(RPP) + "base_value")(lambda C, s: dict(ret=f(s, "base_value")))
ct("C14", g(RPP) + "commit")(
    lambda C, s, x, r: dict(ret=rec(RPC, **{"0": pmul(expo(U, f(s, "base_value"), x), expo(U, f(s, "base_randomizer"), r))}))
)
ct("C14", g(RPP) + "commit_zero_value")(lambda C, s, r: dict(ret=rec(RPC, **{"0": expo(U, f(s, "base_randomizer"), r)})))
ct("C14", g(RPP) + "commit_zero_randomizer")(lambda C, s, x: dict(ret=rec(RPC, **{"0": expo(U, f(s, "base_value"), x)})))
ct(("C14", "C18"), g(RPP) + "to_wire")(
    lambda C, s: dict(ret=rec(RPW, modulus=f(s, "modulus", "modulus"), base_randomizer=retr(U, f(s, "base_randomizer")), base_value=retr(U, f(s, "base_value"))))
)


@ct(("C14", "C18"), g(RPW) + "to_precomputed")
def _(C, s):
    p = params(U, f(s, "modulus", "0"))
    return dict(
        ret=rec(
            RPP,
            modulus=agg(PM, ("modulus", "monty_params_mod_n"), [f(s, "modulus"), p]),
            base_randomizer=monty(U, f(s, "base_randomizer"), p),
            base_value=monty(U, f(s, "base_value"), p),
        ),
        aborts=b_not(isodd(f(s, "modulus", "0"))),
    )


ct("C14", g(RPC) + "pow")(lambda C, a, e: dict(ret=rec(RPC, **{"0": expo(U, f(a, "0"), e)})))
ct("C14", f"<&'a {RPC}<P> as core::ops::Mul>::mul")(lambda C, a, b: dict(ret=rec(RPC, **{"0": pmul(f(a, "0"), f(b, "0"))})))
ct("C14", f"<{RPC}<P> as core::cmp::PartialEq>::eq")(lambda C, a, b: dict(ret=eq0(psub(f(a, "0"), f(b, "0")), "p")))
ct(("C14", "C18"), g(RPC) + "to_wire")(lambda C, a: dict(ret=rec(RPCW, **{"0": retr(U, f(a, "0"))})))
ct(("C14", "C18"), g(RPCW) + "to_precomputed")(
    lambda C, a, s: dict(ret=rec(RPC, **{"0": monty(U, f(a, "0"), f(s, "modulus", "monty_params_mod_n"))}))
)

run = ct.run
if __name__ == "__main__":
    ct.main()
