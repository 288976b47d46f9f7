"""Contracts of src/tools/sss.rs and src/entities: polynomials, shares, Lagrange interpolation (C28), key shares and auxiliary
data (C27), child keys (C31), changes of key shares (C32)."""
from ..low import *
from ..terms import seq, close
from ..alg import gparts, mkgrp, tclass
from ..models import map_seq
from ..terms import lift, ok, err
from ..vf import fseq
from ..protos import subterms
from .curvec import SC, PT, sc, pt, z, NZR, RNG, FS, CRV, PP, PROJ, DT, AT, tweaked, scT, ptT

SSS = "tools::sss::"
ID = SSS + "ShareId"
POLY, PUB = SSS + "Polynomial", SSS + "PublicPolynomial"


def unwrapped(g):
    """A combination of points as a combination of the group elements they hold."""
    r = ZEROG
    for b, k in gparts(g).items():
        if b.op == "gsum":
            iv = fresh_iv()
            b = bigsum(b.args[0], iv, unwrapped(subst(b.args[2], {b.args[1]: iv})), "g")
        else:
            b = z(b)
        r = gadd(r, gmul(k, b))
    return r


def indices(t):
    out = []

    def go(x):
        if x.op == "iv" or x.op == "in" or x.op == "bv":
            out.append(x)
        for y in x.args:
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for w in y:
                    for q in w if isinstance(w, tuple) else (w,):
                        if isinstance(q, T):
                            go(q)
                        elif isinstance(q, tuple):
                            for e in q:
                                if isinstance(e, tuple) and isinstance(e[0], T):
                                    go(e[0])

    go(t)
    return dict.fromkeys(out)


class SssCanon(LowCanon):
    """A Horner loop, from the highest coefficient or from zero, is the value of the polynomial."""

    def canon1(self, t):
        if t.op == "fold":
            r = self.horner(t) or self.product(t)
            if r is not None:
                return r
        if t.op == "bigsum" and t.args[0].startswith("core::result::Result<"):
            # the sum of results: the first error, or the sum of the values
            s = self.canon(t.args[1])
            ty = t.args[0][len("core::result::Result<"):].rsplit(", ", 1)[0]
            bad = self.anyof(s, lambda x: b_not(is_ok(x)))
            tot = self.bigop("bigsum", tclass(ty), map_seq(s, lambda x: self.canon(fld(restrict(x, self.boolc(is_ok(x))), "Ok.0"))), ty)
            return ite(bad, err(mk0("first_error", s)), ok(scT(tot) if tclass(ty) == "S" else ptT(unwrapped(tot)) if tclass(ty) == "P" else tot))
        if t.op == "with" and t.args[1] == "0":
            return scT(self.canon(t.args[2]))
        if t.op == "elem" and t.args[0].op in ("keys", "values"):
            # a map is the sequence of its entries
            return self.canon(fld(elem(t.args[0].args[0], t.args[1]), "0" if t.args[0].op == "keys" else "1"))
        if t.op == "mapval":
            k = self.canon(t.args[1])
            if k.op == "fld" and k.args[1] == "0" and k.args[0].op == "elem" and k.args[0].args[0] is t.args[0]:
                return self.canon(fld(k.args[0], "1"))
            m = self.canon(t.args[0])
            if m.op == "seq":
                # the entry of a map with this key, if the key is one of the map's (keys are distinct)
                d, bv, b = m.args
                for y in indices(k):
                    if self.canon(subst(fld(b, "0"), {bv: y})) is k:
                        return self.canon(subst(fld(b, "1"), {bv: y}))
        if t.op == "exists":
            # some index is equal to i: i is in range
            d, bv, b = t.args
            if b.op == "ite" and b.args[0].op == "zero" and b.args[1] is TRUE and b.args[2] is FALSE and b.args[0].args[0] == "p":
                iv = fresh_iv()
                x = padd(self.canon(subst(b.args[0].args[1], {bv: iv})), iv)
                y = padd(pneg(self.canon(subst(b.args[0].args[1], {bv: iv}))), iv)
                for e in (x, y):
                    if not contains(e, lambda q: q is iv):
                        return pos(sub(self.canon(d), e))
            r = super().canon1(t)
            return self.ismember(r) or r
        if t.op == "len" and t.args[0].op in ("keys", "values"):
            return self.canon(length(t.args[0].args[0]))
        if t.op in ("bigsum", "bigproduct") and t.args[1].op == "values":
            m, iv = t.args[1].args[0], fresh_iv()
            return self.canon(mk0(t.op, t.args[0], seq(length(m), iv, fld(elem(m, iv), "1"))))
        if t.op == "zero" and t.args[0] == "g":
            d = self.canon(t.args[1])
            if d.op == "grp" and any(self.point(b) for b in gparts(d)):
                return self.canon(eq0(unwrapped(d), "g"))
        if t.op == "bigproduct":
            s = self.canon(t.args[1])
            if s.op in ("seq", "fseq"):
                iv = fresh_iv()
                d, bv = s.args[:2]
                v = self.canon(z(subst(s.args[-1], {bv: iv})))
                if s.op == "fseq":
                    v = ite(self.boolc(subst(s.args[2], {bv: iv})), v, const(1))
                return scT(prod(d, iv, v))
        if t.op == "call" and t.args[0] in ("polyval", "prod"):
            k, n, bv, b, *x = t.args[1:]
            iv = fresh_iv()
            b2 = self.canon(subst(b, {bv: iv}))
            bv2, b2 = close(iv, b2)
            return mk0("call", t.args[0], k, self.canon(n), bv2, b2, *[self.canon(y) for y in x])
        return super().canon1(t)

    def ismember(self, r):
        """Some element of the collection is equal to x: x is a member."""
        if r.op != "ite" or r.args[0].op != "exists" or r.args[1] is not TRUE or r.args[2] is not FALSE:
            return None
        d, bv, b = r.args[0].args
        iv = fresh_iv()
        b = self.boolc(subst(b, {bv: iv}))
        if b.op != "ite" or b.args[1] is not TRUE or b.args[2] is not FALSE or b.args[0].op not in ("eq", "eqz", "zero"):
            return None
        found = [x for x in subterms(b) if x.op == "elem" and x.args[1] is iv and length(x.args[0]) is d]
        at = b.args[0]
        for e in found:
            if contains(e.args[0], lambda q: q is iv):
                continue
            if at.op == "eq":
                xs = [y for y in at.args if y is not e]
            else:
                xs = [self.canon(f(e, at.args[-1])) for f in (padd, psub, add, sub)]
            for x in xs:
                if not contains(x, lambda q: q is iv):
                    return atom(mk0("member", x, e.args[0]))
        return None

    def product(self, t):
        """A loop that multiplies."""
        d, bv, a, init, body = t.args
        if not isinstance(body, T):
            return None
        iv, acc = fresh_iv(), mk0("in", "ACC")
        for wrap in (scT, None):
            v = self.canon(subst(body, {bv: iv, a: wrap(acc) if wrap else acc}))
            v = self.canon(z(v)) if wrap else v
            if not contains(v, lambda y: y is acc):
                continue
            x = self.canon(subst(v, {acc: const(1)}))
            if pmul(x, acc) is v and not contains(x, lambda y: y is acc):
                r = pmul(self.canon(z(init) if wrap else init), prod(self.canon(d), iv, x))
                return wrap(r) if wrap else r
        return None

    def point(self, b):
        return b.op == "agg" and b.args[0] == PT or b.op == "gsum" and any(self.point(x) for x in gparts(b.args[2]))

    def anyof(self, s, f):
        """Whether some element of the sequence has the property."""
        if s.op == "ite":
            return lift(s, lambda x: self.anyof(x, f))
        if s.op == "cat":
            return b_or(*[self.boolc(f(p.args[0])) if p.op == "one" else self.anyof(p, f) for p in s.args])
        iv = fresh_iv()
        return exists(length(s), iv, self.boolc(f(elem(s, iv))))

    def horner(self, t):
        d, bv, a, init, body = t.args
        if not isinstance(body, T):
            return None
        iv, acc = fresh_iv(), mk0("in", "ACC")
        for wrap in (scT, ptT, None):
            v = self.canon(subst(body, {bv: iv, a: wrap(acc) if wrap else acc}))
            st = self.step(self.canon(z(v)) if wrap else v, acc, iv)
            if st is None:
                continue
            kind, x, c = st
            last = self.canon(z(init) if wrap else init)
            at = lambda k: self.canon(subst(c, {iv: self.canon(sub(sub(d, const(1)), k))}))  # the coefficient of x^k
            k = fresh_iv()
            if last is const(0) or last is ZEROG:
                n = d
            elif at(d) is last:
                n = self.canon(add(d, const(1)))
            else:
                return None
            bk, b = close(k, at(k))
            val = mk0("call", "polyval", kind, n, bk, b, x)
            return wrap(val) if wrap else val
        return None

    def step(self, b, acc, iv):
        """acc' = x * acc + c(iv): which kind of element, x, c."""
        if b.op == "ite":
            return None
        if b.op == "grp":
            d = gparts(b)
            x, c, kind = d.pop(acc, None), None, "g"
            c = mkgrp(d)
        else:
            hi = {m: k for m, k in pol(b).items() if any(y is acc for y, e in m)}
            if not hi or any(dict(m)[acc] != 1 for m in hi):
                return None
            x, kind = mkpoly({tuple((y, e) for y, e in m if y is not acc): k for m, k in hi.items()}), "p"
            c = psub(b, mkpoly(hi))
        bad = lambda t, *vs: contains(t, lambda y: any(y is v for v in vs))
        if x is None or x is const(1) or bad(x, iv, acc) or bad(c, acc):
            return None
        return kind, x, c


def prod(n, iv, b):
    bv, b = close(iv, b)
    return mk0("call", "prod", "p", n, bv, b)


def poly(kind, n, coeff, x):
    """The sum of coeff(i) * x^i for i < n; `kind` is "p" for scalars and "g" for points."""
    iv = fresh_iv()
    bv, b = close(iv, coeff(iv))
    return mk0("call", "polyval", kind, n, bv, b, x)


ct = Book()
A = "C28"
ct((A, "C32"), ID + "::<P>::new")(lambda C, i: dict(ret=rec(ID, **{"0": scT(i)})))


@ct(A, SSS + "shamir_evaluation_points")
def _(C, n):
    """The points are distinct and none of them is zero."""
    iv = fresh_iv()
    return dict(ret=seq(n, iv, agg(ID, ("0",), [scT(add(iv, const(1)))])))


@ct(A, POLY + "::<P>::random")
def _(C, r, s, n):
    iv = fresh_iv()
    m = sub(n, const(1))
    d = draw(0, NZR, RNG, ivs=(iv,))
    return dict(assume=pos(n), ret=rec(POLY, **{"0": cat([mk0("one", s), seq(m, iv, scT(d))])}))


@ct(A, POLY + "::<P>::evaluate")
def _(C, a, x):
    c, n = z(a), length(z(a))
    return dict(aborts=eq0(n, "p"), ret=sc(poly("p", n, lambda i: z(elem(c, i)), z(z(x)))))


@ct(A, PUB + "::<P>::evaluate")
def _(C, a, x):
    c, n = z(a), length(z(a))
    return dict(aborts=eq0(n, "p"), ret=pt(poly("g", n, lambda i: z(elem(c, i)), z(z(x)))))


@ct((A, "C32"), POLY + "::<P>::public")
def _(C, a):
    iv = fresh_iv()
    c = z(a)
    return dict(ret=rec(PUB, **{"0": seq(length(c), iv, ptT(gmul(z(elem(c, iv)), G)))}))


ct((A, "C32"), PUB + "::<P>::len")(lambda C, a: dict(ret=length(z(a))))
ct((A, "C32"), PUB + "::<P>::coeff0")(lambda C, a: dict(ret=("res", pos(length(z(a))), elem(z(a), const(0)))))


def shares(n, s, k):
    """The coefficients: the secret, then n - 1 random ones."""
    jv = fresh_iv()
    return cat([mk0("one", s), seq(sub(n, const(1)), jv, scT(draw(k, NZR, RNG, ivs=(jv,))))])


@ct(A, SSS + "shamir_split")
def _(C, r, s, n, ids):
    """Each party gets the value, at its own point, of the polynomial with the secret as constant term and n - 1 random coefficients."""
    iv = fresh_iv()
    cs = shares(n, s, 0)
    # (the map has one entry per point: the points are distinct)
    return dict(assume=pos(n), ret=seq(length(ids), iv, tup(elem(ids, iv), scT(poly("p", n, lambda i: z(elem(cs, i)), z(z(elem(ids, iv))))))))


def lagrange(n, at, x, same):
    """The product over the points y != x of y / (y - x) -- the Lagrange coefficient of x at zero -- and when it is undefined."""
    iv = fresh_iv()
    y = z(z(at(iv)))
    i = call("elliptic_curve::Field::invert", FS, psub(y, z(z(x))))
    s = same(at(iv), x)
    return prod(n, iv, ite(s, const(1), pmul(y, fld(i, "Some.0")))), exists(n, iv, b_and(b_not(s), b_not(is_some(i))))


SAME = lambda a, b: eq0(psub(a, b), "p")


@ct(A, SSS + "interpolation_coeff")
def _(C, ids, x):
    v, bad = lagrange(length(ids), lambda i: elem(ids, i), x, SAME)
    return dict(aborts=bad, ret=sc(v))


def join(mul):
    def f(C, m):
        ks, n, iv = mk0("keys", m), length(m), fresh_iv()
        k, v = fld(elem(m, iv), "0"), fld(elem(m, iv), "1")
        w, bad = lagrange(n, lambda i: fld(elem(m, i), "0"), k, SAME)
        return n, iv, mul(w, z(v)), exists(n, iv, bad)

    return f


@ct(A, SSS + "shamir_join_scalars")
def _(C, m):
    n, iv, b, bad = join(pmul)(C, m)
    return dict(aborts=bad, ret=sc(bigsum(n, iv, C.canon(b), "p")))


@ct(A, SSS + "shamir_join_points")
def _(C, m):
    n, iv, b, bad = join(gmul)(C, m)
    return dict(aborts=bad, ret=pt(bigsum(n, iv, C.canon(b), "g")))


# ---- key shares and auxiliary data (C27): additive shares of n parties, threshold shares
FULL = "entities::full::"
KS, PKS, AI, PAI = FULL + "KeyShare", FULL + "PublicKeyShares", FULL + "AuxInfo", FULL + "PublicAuxInfos"
TKS = "entities::threshold::ThresholdKeyShare"
keys = lambda m: mk0("keys", m)
get = lambda m, k: mk0("mapval", m, k)
has = lambda m, k: atom(mk0("member", k, keys(m)))


def entries(n, f):
    """The map with the n entries f(i) = (key, value)."""
    iv = fresh_iv()
    return seq(n, iv, tup(*f(iv)))


def total(m):
    iv = fresh_iv()
    return bigsum(length(m), iv, z(fld(elem(m, iv), "1")), "g")


def every(n, f):
    iv = fresh_iv()
    return b_not(exists(n, iv, b_not(f(iv))))


key = lambda m, i: fld(elem(m, i), "0")
val = lambda m, i: fld(elem(m, i), "1")
ct("C27", KS + "::<P, I>::verifying_key_as_point")(lambda C, a: dict(ret=pt(total(z(fld(a, "public"))))))
ct("C27", KS + "::<P, I>::all_parties")(lambda C, a: dict(ret=keys(z(fld(a, "public")))))
ct("C27", KS + "::<P, I>::new")(
    lambda C, o, s, m: dict(ret=("res", b_not(eq0(total(m), "g")), rec(KS, owner=o, secret=s, public=rec(PKS, **{"0": m}))))
)


@ct(("C27", "C32"), KS + "::<P, I>::update")
def _(C, a, b):
    """Only changes for the same owner and the same parties are applied; secret and public shares change alike."""
    m, d = z(fld(a, "public")), fld(b, "public_share_changes")
    ok = b_and(eq0(psub(fld(a, "owner"), fld(b, "owner")), "p"), eq(length(m), length(d)), every(length(m), lambda i: has(d, key(m, i))))
    sh = entries(length(m), lambda i: (key(m, i), ptT(gadd(z(val(m, i)), z(get(d, key(m, i)))))))
    sec = sc(padd(z(fld(a, "secret")), z(fld(b, "secret_share_change"))))
    return dict(ret=("res", ok, rec(KS, owner=fld(a, "owner"), secret=sec, public=rec(PKS, **{"0": sh}))))


def subset(m, ids):
    iv = fresh_iv()
    s = fseq(length(m), iv, atom(mk0("member", key(m, iv), ids)), elem(m, iv))
    return eq(length(ids), length(s)), s


@ct("C27", PAI + "::<P, I>::subset")
def _(C, a, ids):
    ok, s = subset(z(a), ids)
    return dict(ret=("res", ok, rec(PAI, **{"0": s})))


@ct("C27", AI + "::<P, I>::subset")
def _(C, a, ids):
    ok, s = subset(z(fld(a, "public")), ids)
    ok = b_and(ok, atom(mk0("member", fld(a, "owner"), ids)))
    return dict(ret=("res", ok, rec(AI, owner=fld(a, "owner"), secret=fld(a, "secret"), public=rec(PAI, **{"0": s}))))


EQ = lambda a, b: eq(a, b)


@ct((A, "C27"), TKS + "::<P, I>::verifying_key_as_point")
def _(C, a):
    """The key is interpolated from the first `threshold` shares."""
    ids, pub = fld(a, "share_ids"), fld(a, "public_shares")
    n, iv = imin(length(ids), fld(a, "threshold")), fresh_iv()
    w, bad = lagrange(n, lambda i: val(ids, i), val(ids, iv), SAME)
    ok = every(n, lambda i: has(pub, key(ids, i)))
    return dict(aborts=b_and(ok, exists(n, iv, bad)), ret=("res", ok, pt(bigsum(n, iv, C.canon(gmul(w, z(get(pub, key(ids, iv))))), "g"))))


@ct((A, "C27"), TKS + "::<P, I>::to_key_share")
def _(C, a, S_):
    """For exactly `threshold` parties with the owner among them, each share is multiplied by its Lagrange coefficient over these parties."""
    ids, pub, me, n = fld(a, "share_ids"), fld(a, "public_shares"), fld(a, "owner"), length(S_)
    iv = fresh_iv()
    sid = lambda k: get(ids, k)
    known = every(n, lambda i: has(ids, elem(S_, i)))
    pubs = every(n, lambda i: has(pub, elem(S_, i)))
    w = lambda k: lagrange(n, lambda i: sid(elem(S_, i)), sid(k), EQ)
    sh = entries(n, lambda i: (elem(S_, i), ptT(C.canon(gmul(w(elem(S_, i))[0], z(get(pub, elem(S_, i))))))))
    tot = bigsum(n, iv, C.canon(gmul(w(elem(S_, iv))[0], z(get(pub, elem(S_, iv))))), "g")
    fine = b_and(eq(n, fld(a, "threshold")), atom(mk0("member", me, S_)))
    bad = b_or(w(me)[1], exists(n, iv, b_and(has(pub, elem(S_, iv)), has(ids, elem(S_, iv)), w(elem(S_, iv))[1])))
    return dict(
        assume=has(ids, me),
        aborts=b_and(fine, has(ids, me), known, bad),
        ret=("res", b_and(fine, has(ids, me), known, pubs, b_not(eq0(tot, "g"))),
             rec(KS, owner=me, secret=sc(pmul(z(fld(a, "secret_share")), w(me)[0])), public=rec(PKS, **{"0": sh}))),
    )


@ct((A, "C27"), TKS + "::<P, I>::from_key_share")
def _(C, a):
    """The reverse, for parties numbered from 1."""
    m, me = z(fld(a, "public")), fld(a, "owner")
    n, iv = length(m), fresh_iv()
    sid = lambda i: agg(ID, ("0",), [scT(add(i, const(1)))])
    rk = mk0("rank", me, keys(m))
    w = lambda i: lagrange(n, sid, sid(i), lambda x, y: eq0(psub(z(z(x)), z(z(y))), "p"))
    inv = lambda i: C.canon(call("elliptic_curve::Field::invert", FS, w(i)[0]))
    sh = entries(n, lambda i: (key(m, i), ptT(gmul(fld(inv(i), "Some.0"), z(val(m, i))))))
    bad = lambda i: b_or(w(i)[1], b_not(is_some(inv(i))))
    return dict(
        assume=has(m, me), aborts=b_or(bad(rk), exists(n, iv, bad(iv))),
        ret=rec(TKS, owner=me, threshold=mk0("trunc", "u32", n), share_ids=entries(n, lambda i: (key(m, i), sid(i))),
                secret_share=sc(pmul(z(fld(a, "secret")), fld(inv(rk), "Some.0"))), public_shares=sh),
    )


def given(sk, d):
    """The signing key's scalar, or a random one."""
    return scT(ite(is_some(sk), call("ecdsa::SigningKey::<C>::as_nonzero_scalar", "", fld(sk, "Some.0")), d))


SPR = "elliptic_curve::ScalarPrimitive::<C>::random"


@ct((A, "C27"), KS + "::<P, I>::new_centralized")
def _(C, rng, ids, sk):
    n, iv, jv = length(ids), fresh_iv(), fresh_iv()
    s, d = given(sk, draw(0, SPR, RNG)), lambda i: draw(1, NZR, RNG, ivs=(i,))
    m = sub(n, const(1))
    last = scT(psub(z(s), bigsum(m, jv, d(jv), "p")))
    sec = lambda i: elem(cat([seq(m, jv, scT(d(jv))), mk0("one", last)]), i)
    pub = entries(n, lambda i: (elem(ids, i), ptT(gmul(z(sec(i)), G))))
    share = lambda i: agg(KS, ("owner", "secret", "public"), [elem(ids, i), sec(i), agg(PKS, ("0",), [pub])])
    return dict(assume=pos(n), ret=entries(n, lambda i: (elem(ids, i), share(i))))


@ct((A, "C27"), TKS + "::<P, I>::new_centralized")
def _(C, rng, ids, t, sk):
    """Party number i (from 1) holds the value of the polynomial at i."""
    n = length(ids)
    cs = shares(t, given(sk, draw(0, SPR, RNG)), 1)
    sid = lambda i: agg(ID, ("0",), [scT(add(i, const(1)))])
    sec = lambda i: scT(poly("p", t, lambda j: z(elem(cs, j)), add(i, const(1))))
    pub = entries(n, lambda i: (elem(ids, i), ptT(gmul(z(sec(i)), G))))
    sids = entries(n, lambda i: (elem(ids, i), sid(i)))
    share = lambda i: agg(TKS, ("owner", "threshold", "secret_share", "share_ids", "public_shares"), [elem(ids, i), mk0("trunc", "u32", t), sec(i), sids, pub])
    ok = b_and(pos(t), b_not(pos(sub(t, n))))
    return dict(ret=("res", ok, entries(n, lambda i: (elem(ids, i), share(i)))))


# ---- child keys (C31): every share and every public share is changed by the same tweaks
B32 = "curve::bip32::"
PK_CV, SK_CV = f"ecdsa::VerifyingKey<{CRV}>", f"ecdsa::SigningKey<{CRV}>"
VK = TKS + "::<P, I>::verifying_key"
DLEAF = (re.escape(VK), re.escape(DT), re.escape(AT))


@ct("C31", TKS + "::<P, I>::derive_bip32", leaf=DLEAF)
def _(C, a, path):
    key_ = call(VK, "", a)
    tw = call(DT, "", call(B32 + "PublicTweakable::tweakable_pk", PK_CV, fld(key_, "Ok.0")), path)
    tweaks = fld(tw, "Ok.0")
    sk = call("elliptic_curve::NonZeroScalar::<C>::new", "", z(fld(a, "secret_share")))
    ok, child = tweaked(C, SK_CV, fld(sk, "Some.0"), tweaks, "Private", "sk")
    pub, iv = fld(a, "public_shares"), fresh_iv()
    n = length(pub)
    vk = lambda i: call("ecdsa::VerifyingKey::<C>::from_affine", "", call("elliptic_curve::group::Curve::to_affine", PROJ, z(val(pub, i))))
    new = lambda i: call(AT, "", fld(vk(i), "Ok.0"), tweaks)
    sh = entries(n, lambda i: (key(pub, i), ptT(call("ecdsa::VerifyingKey::<C>::as_affine", "", fld(new(i), "Ok.0")))))
    ok = b_and(is_ok(key_), is_ok(tw), is_some(sk), ok, b_not(exists(n, iv, b_not(is_ok(vk(iv))))), b_not(exists(n, iv, b_not(is_ok(new(iv))))))
    return dict(ret=("res", ok, rec(TKS, owner=fld(a, "owner"), threshold=fld(a, "threshold"), share_ids=fld(a, "share_ids"),
                                    secret_share=sc(call("ecdsa::SigningKey::<C>::as_nonzero_scalar", "", child)), public_shares=sh)))


@ct("C31", f"<{TKS}<P, I> as {B32}DeriveChildKey<{CRV}>>::derive_verifying_key_bip32", leaf=DLEAF)
def _(C, a, path):
    key_ = call(VK, "", a)
    tw = call(DT, "", call(B32 + "PublicTweakable::tweakable_pk", PK_CV, fld(key_, "Ok.0")), path)
    r = call(AT, "", fld(key_, "Ok.0"), fld(tw, "Ok.0"))
    return dict(ret=("res", b_and(is_ok(key_), is_ok(tw), is_ok(r)), fld(r, "Ok.0")))


VFA = lambda p: call("ecdsa::VerifyingKey::<C>::from_affine", "", call("elliptic_curve::group::Curve::to_affine", PROJ, p))


@ct(("C31", A), VK, leaf=(re.escape(TKS + "::<P, I>::verifying_key_as_point"),))
def _(C, a):
    p = call(TKS + "::<P, I>::verifying_key_as_point", "", a)
    k = VFA(z(fld(p, "Ok.0")))
    return dict(ret=("res", b_and(is_ok(p), is_ok(k)), fld(k, "Ok.0")))


@ct(("C31", "C27"), KS + "::<P, I>::verifying_key")
def _(C, a):
    k = VFA(total(z(fld(a, "public"))))
    return dict(must_abort=b_not(is_ok(k)), aborts=None, ret=fld(k, "Ok.0"))


PLEAF = (r"paillier::.*::(random|random_with_secret|public_key|to_wire|to_precomputed|into_precomputed|into_wire)",)


KEYS, RPM = "paillier::keys::", "paillier::ring_pedersen::"


@ct("C27", AI + "::<P, I>::new_centralized", leaf=PLEAF)
def _(C, rng, ids):
    """The public data recorded for a party is that of its secret key."""
    n = length(ids)
    sk = lambda i: draw(0, KEYS + "SecretKeyPaillierWire::<P>::random", PP, ivs=(i,))
    rp = lambda i: draw(1, RPM + "RPParams::<P>::random", PP, ivs=(i,))
    info = lambda i: agg(FULL + "PublicAuxInfo", ("paillier_pk", "rp_params"), [call(KEYS + "SecretKeyPaillierWire::<P>::public_key", "", sk(i)), call(RPM + "RPParams::<P>::to_wire", "", rp(i))])
    pub = agg(PAI, ("0",), [entries(n, lambda i: (elem(ids, i), info(i)))])
    own = lambda i: agg(AI, ("owner", "secret", "public"), [elem(ids, i), agg(FULL + "SecretAuxInfo", ("paillier_sk",), [sk(i)]), pub])
    return dict(ret=entries(n, lambda i: (elem(ids, i), own(i))))


@ct("C27", AI + "::<P, I>::into_precomputed", leaf=PLEAF)
def _(C, a):
    m = z(fld(a, "public"))
    info = lambda x: agg(
        FULL + "PublicAuxInfoPrecomputed", ("paillier_pk", "rp_params"),
        [call(KEYS + "PublicKeyPaillierWire::<P>::into_precomputed", "", fld(x, "paillier_pk")), call(RPM + "RPParamsWire::<P>::to_precomputed", "", fld(x, "rp_params"))],
    )
    sk = call(KEYS + "SecretKeyPaillierWire::<P>::into_precomputed", "", fld(fld(a, "secret"), "paillier_sk"))
    return dict(ret=rec(FULL + "AuxInfoPrecomputed", secret_aux=rec(FULL + "SecretAuxInfoPrecomputed", paillier_sk=sk),
                        public_aux=entries(length(m), lambda i: (key(m, i), info(val(m, i))))))



def run(F, prop):
    return ct.run(F, prop, canon=SssCanon)


if __name__ == "__main__":
    ct.main(canon=SssCanon)
