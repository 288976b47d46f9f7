"""Contracts of the places where the protocols take in and give out shares: entry points (C27), refresh and resharing (C32)."""
from ..low import *
from ..terms import seq
from ..vf import fseq
from ..models import mapget
from .curvec import SC, PT, sc, pt, z, PP, RNG, scT, ptT
from .sssc import SssCanon, KS, TKS, PKS, FULL, AI, PAI, SSS, ID, KEYS, RPM, entries, every, has, get, key, val, total

PR = "protocols::"
ct = Book()
NEWDYN = "manul::protocol::BoxedRound::<Id, P>::new_dynamic"
boxed = lambda **k: ("arg", NEWDYN, 0, rec("", **k))
PLEAF = (r"tools::protocol_shortcuts::Without::without", r"paillier::.*", r"zk::.*", r"curve::arithmetic::.*", r"tools::sss::.*", r"protocols::\w+::\w+::new", r".*::into_precomputed")
LEAF = (r"paillier::.*", r"zk::.*", r"tools::sss::.*")
without = lambda s, x, I="Id": call("tools::protocol_shortcuts::Without::without", f"alloc::collections::BTreeSet<{I}>", s, x)
inset = lambda x, s: atom(mk0("member", x, s))


def b_iff(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def ep(m, ty, P="P", I="Id"):
    return f"<{PR}{m}::{ty}<{P}, {I}> as manul::protocol::EntryPoint<{I}>>::make_round"


def rnd(m, n, what, I="Id"):
    return f"<{PR}{m}::Round{n}<P, {I}> as manul::protocol::Round<{I}>>::{what}"


# ---- starting a protocol: the local party is one of the parties, and what it brings in belongs to it
@ct("C27", PR + "interactive_signing::InteractiveSigning::<P, Id>::new")
def _(C, msg, ks, ai):
    ok = b_and(eq(fld(ks, "owner"), fld(ai, "owner")), eq(mk0("keys", z(fld(ks, "public"))), mk0("keys", z(fld(ai, "public")))))
    return dict(aborts=None, ret=("res", ok, rec("", key_share=ks, aux_info=ai, message=msg)))  # (logs)


@ct("C27", PR + "interactive_signing::InteractiveSigningAssociatedData::<P, Id>::new")
def _(C, msg, ks, ai):
    return dict(ret=("res", eq(mk0("keys", z(ks)), mk0("keys", z(ai))), rec("", shares=ks, aux=ai, message=msg)))


@ct("C27", ep("interactive_signing", "InteractiveSigning"), leaf=PLEAF)
def _(C, a, rng, sr, me):
    ks, ai = fld(a, "key_share"), fld(a, "aux_info")
    ids = mk0("keys", z(fld(ks, "public")))
    ctx = rec("", my_id=me, all_ids=ids, other_ids=without(ids, me), key_share=ks, aux_info=call(AI + "::<P, I>::into_precomputed", "", ai))
    return dict(aborts=None, ret=("res", b_and(eq(fld(ks, "owner"), me), eq(fld(ai, "owner"), me)), boxed(context=ctx)))


for m_, ty_ in (("key_init", "KeyInit"), ("aux_gen", "AuxGen"), ("key_refresh", "KeyRefresh")):

    @ct("C27", ep(m_, ty_), leaf=PLEAF)
    def _(C, a, rng, sr, me):
        ids = fld(a, "all_ids")
        return dict(aborts=None, ret=("res", inset(me, ids), boxed(context=rec("", my_id=me, other_ids=without(ids, me)))))


@ct(("C27", "C32"), ep("key_resharing", "KeyResharing", I="I"), leaf=PLEAF)
def _(C, a, rng, sr, me):
    old, new, ids, t = fld(a, "old_holder"), fld(a, "new_holder"), fld(a, "new_holders"), fld(a, "new_threshold")
    o, n = fld(fld(old, "Some.0"), "key_share"), fld(new, "Some.0")
    ok = b_and(
        b_not(eq(t, const(0))), b_not(pos(sub(t, length(ids)))), b_or(is_some(old), is_some(new)),
        b_or(b_not(is_some(old)), b_and(eq(fld(o, "owner"), me), has(fld(o, "share_ids"), fld(o, "owner")))),
        b_or(b_not(is_some(new)), b_and(inset(me, ids), b_iff(inset(me, fld(n, "old_holders")), is_some(old)))),
    )
    poly = draw(0, SSS + "Polynomial::<P>::random", "", fld(o, "secret_share"), t)
    nid = entries(length(ids), lambda i: (elem(ids, i), call(ID + "::<P>::new", "", add(i, const(1)))))
    return dict(aborts=None, ret=("res", ok, boxed(
        old_holder=("opt", is_some(old), rec("", share_id=get(fld(o, "share_ids"), fld(o, "owner")), polynomial=poly, public_polynomial=call(SSS + "Polynomial::<P>::public", "", poly))),
        new_holder=("opt", is_some(new), rec("", inputs=n)), new_threshold=t, my_id=me, new_share_ids=nid)))


@ct("C32", ep("key_refresh", "KeyRefresh"), leaf=PLEAF)
def _(C, a, rng, sr, me):
    """The changes are a split of zero (whose parts add up to zero: contract of secret_split, C28); what is published are their multiples of the generator."""
    ids = fld(a, "all_ids")
    parts = draw(0, "curve::arithmetic::secret_split", "", scT(const(0)), length(ids))
    n = imin(length(ids), length(parts))
    xs = entries(n, lambda i: (elem(ids, i), elem(parts, i)))
    pub = entries(n, lambda i: (elem(ids, i), call("curve::arithmetic::Scalar::<P>::mul_by_generator", "", elem(parts, i))))
    return dict(aborts=None, ret=("res", inset(me, ids), boxed(context=rec("", xs=xs, all_ids=ids), public_data=rec("", cap_xs=pub))))


PAYLOAD = "manul::protocol::Payload::downcast"


def payload(C, m, i):
    return call(PAYLOAD, "", fld(elem(m, i), "1"))


# ---- what the protocols give out
@ct("C27", rnd("key_init", 3, "finalize"))
def _(C, a, rng, pl, arts):
    """The key share holds the local secret with its own public counterpart and what the others published."""
    c = fld(a, "context")
    mine = fld(fld(c, "public_data"), "cap_x")
    iv = fresh_iv()
    caps = fld(a, "cap_xs")
    tot = gadd(z(mine), total(caps))
    return dict(ret=("res", b_not(eq0(tot, "g")), ("fld", "Result.0", rec("", owner=fld(c, "my_id"), secret=fld(c, "x"),
                     public=rec("", **{"0": cat([caps, mk0("one", tup(fld(c, "my_id"), mine))])})))))


def public_aux(m):
    info = lambda x: agg(FULL + "PublicAuxInfo", ("paillier_pk", "rp_params"), [call(KEYS + "PublicKeyPaillier::<P>::into_wire", "", fld(x, "paillier_pk")), call(RPM + "RPParams::<P>::to_wire", "", fld(x, "rp_params"))])
    return rec("", **{"0": entries(length(m), lambda i: (key(m, i), info(val(m, i))))})


def aux_of(a):
    c = fld(a, "context")
    sk = call(KEYS + "SecretKeyPaillier::<P>::into_wire", "", fld(c, "paillier_sk"))
    return rec("", owner=fld(c, "my_id"), secret=rec("", paillier_sk=sk), public=public_aux(fld(a, "r2_payloads")))


@ct("C27", rnd("aux_gen", 3, "finalize"), leaf=LEAF)
def _(C, a, rng, pl, arts):
    return dict(ret=("res", TRUE, ("fld", "Result.0", aux_of(a))))


@ct(("C27", "C32"), rnd("key_refresh", 3, "finalize"), leaf=LEAF)
def _(C, a, rng, pl, arts):
    """The change of the local share is the sum of the changes received and the own one; the change of a public share is the sum of
    what all parties (the local one among them) published for it."""
    c, r2 = fld(a, "context"), fld(a, "r2_payloads")
    me, ids, xs = fld(c, "my_id"), fld(c, "all_ids"), fld(c, "xs")
    iv, jv = fresh_iv(), fresh_iv()
    got = payload(C, pl, iv)
    caps = lambda j: fld(val(r2, j), "cap_xs")
    ok = b_and(b_not(exists(length(pl), iv, b_not(is_ok(got)))), has(xs, me),
               every(length(ids), lambda i: every(length(r2), lambda j: has(caps(j), elem(ids, i)))))
    x = sc(padd(z(get(xs, me)), bigsum(length(pl), iv, z(fld(fld(got, "Ok.0"), "x")), "p")))
    pub = entries(length(ids), lambda i: (elem(ids, i), ptT(bigsum(length(r2), jv, z(get(caps(jv), elem(ids, i))), "g"))))
    change = rec("", owner=me, secret_share_change=x, public_share_changes=pub)
    return dict(ret=("res", ok, ("fld", "Result.0", rec("", **{"0": change, "1": aux_of(a)}))))


@ct("C32", rnd("key_refresh", 3, "receive_message"), leaf=LEAF)
def _(C, a, fmt, frm, msg):
    """A decrypted share change is kept only if it is the discrete logarithm of the published one."""

    def needs(got):
        x = fld(fld(fld(got, "Ok.0").args[2], "x"), "0")
        c = fld(a, "context")
        m = fld(get(fld(a, "r2_payloads"), frm), "cap_xs")
        return [("published", b_and(has(m, fld(c, "my_id")), eq(ptT(gmul(x, G)), get(m, fld(c, "my_id")))))]

    return dict(aborts=None, needs=needs)


@ct(("C27", "C32"), rnd("key_resharing", 1, "receive_message", I="I"), leaf=LEAF)
def _(C, a, fmt, frm, msg):
    """A subshare is kept only if an old holder sent it, its polynomial has the right degree, and it is its value at the local share ID."""
    new, ids, me = fld(a, "new_holder"), fld(a, "new_share_ids"), fld(a, "my_id")

    def needs(got):
        p = fld(got, "Ok.0").args[2]
        poly = fld(p, "public_polynomial")
        val_ = call(SSS + "PublicPolynomial::<P>::evaluate", "", poly, get(ids, me))
        return [
            ("sender", b_and(is_some(new), inset(frm, fld(fld(fld(new, "Some.0"), "inputs"), "old_holders")))),
            ("degree", eq(call(SSS + "PublicPolynomial::<P>::len", "", poly), fld(a, "new_threshold"))),
            ("published", b_and(has(ids, me), eq(val_, ptT(gmul(z(fld(p, "subshare")), G))))),
        ]

    return dict(aborts=None, needs=needs)


@ct("C32", rnd("key_resharing", 1, "finalize", I="I"), leaf=(r"tools::sss::.*",))
def _(C, a, rng, pl, arts):
    """With the own contribution of a party that also holds an old share: the constant terms of the polynomials, interpolated over the old
    share IDs, give the expected key; the new share is interpolated from the subshares of the listed old holders and the public
    shares of all new holders from the values of the polynomials."""
    old, new, ids, me = fld(a, "old_holder"), fld(a, "new_holder"), fld(a, "new_share_ids"), fld(a, "my_id")
    o, inp = fld(old, "Some.0"), fld(fld(new, "Some.0"), "inputs")
    P_ = SSS + "PublicPolynomial::<P>::"
    fields = ("subshare", "public_polynomial", "old_share_id")
    own = agg("protocols::key_resharing::Round1Payload", fields, [call(SSS + "Polynomial::<P>::evaluate", "", fld(o, "polynomial"), get(ids, me)), fld(o, "public_polynomial"), fld(o, "share_id")])
    iv, jv = fresh_iv(), fresh_iv()
    got = lambda i: fld(payload(C, pl, i), "Ok.0")
    n = length(pl)

    def case(mine):
        parts = lambda f: cat([seq(n, jv, f(fld(elem(pl, jv), "0"), got(jv)))] + ([mk0("one", f(me, own))] if mine else []))
        sids = mk0("iter", parts(lambda k, p: fld(p, "old_share_id")), const(0))
        c0 = lambda p: call(P_ + "coeff0", "", fld(p, "public_polynomial"))
        term = lambda p: gmul(z(call(SSS + "interpolation_coeff", "", sids, fld(p, "old_share_id"))), z(fld(c0(p), "Ok.0")))
        tot = bigsum(n, iv, C.canon(term(got(iv))), "g")
        sound = b_not(exists(n, iv, b_not(is_ok(c0(got(iv))))))
        if mine:
            tot, sound = gadd(tot, C.canon(term(own))), b_and(sound, is_ok(c0(own)))
        vk = call("ecdsa::VerifyingKey::<C>::as_affine", "", fld(inp, "verifying_key"))
        M, h = parts(lambda k, p: tup(k, p)), fld(inp, "old_holders")
        there = every(length(h), lambda i: is_some(mapget(M, elem(h, i))))
        okay = b_and(b_not(exists(n, iv, b_not(is_ok(payload(C, pl, iv))))), has(ids, me), sound, eq0(gsub(tot, vk), "g"), there)
        sub_ = lambda i: fld(mapget(M, elem(h, i)), "Some.0")
        sec = call(SSS + "shamir_join_scalars", "", entries(length(h), lambda i: (fld(sub_(i), "old_share_id"), fld(sub_(i), "subshare"))))
        pubs = entries(length(ids), lambda i: (key(ids, i), call(SSS + "shamir_join_points", "", parts(lambda k, p: tup(fld(p, "old_share_id"), call(P_ + "evaluate", "", fld(p, "public_polynomial"), val(ids, i)))))))
        return okay, sec, pubs

    w, wo = case(True), case(False)
    pick = lambda k: ite(is_some(old), w[k], wo[k])
    share = rec("", owner=me, threshold=mk0("trunc", "u32", fld(a, "new_threshold")), secret_share=pick(1), share_ids=ids, public_shares=pick(2))
    return dict(ret=("res", b_or(b_not(is_some(new)), pick(0)), ("fld", "Result.0", ("opt", is_some(new), share))))


def accepted(F, prop):
    """A round-2 message of a key refresh is accepted only if the published changes are for all parties and add up to the identity."""
    from ..prov import Prov
    from . import provc

    V = Prov(F)
    V.mod = "key_refresh"
    funcs = set()
    for r in V.rs:
        if r.module == "key_refresh" and r.path.get("receive_message") and V.P.vf(r.path["receive_message"]):
            funcs |= set(V.P.vf(r.path["receive_message"]).analysed)
    facts = [(show(x, 12), show(y, 12)) for x, y in provc.established(V, "key_refresh", 9)]
    obs = []
    for f, why in (("cap_xs", "share changes"), ("cap_as", "commitments"), ("cap_ys", "keys the changes are encrypted with")):
        ok = any(re.fullmatch(rf"keys\(BODY\(2, '\w+', PEER\)\.{f}\)", x) and y == "E:key_refresh.all_ids" for x, y in facts)
        obs.append(Ob(prop, f"key_refresh:{f}:parties", ok, "src/protocols/key_refresh.rs Round2::receive_message", f"{why} are accepted only for exactly the parties of the protocol"))
    ok = any(re.fullmatch(r"bigsum\(curve::arithmetic::Point<P>, values\(BODY\(2, '\w+', PEER\)\.cap_xs\)\)", x) and y == "curve::arithmetic::Point::<P>::identity()" for x, y in facts)
    obs.append(Ob(prop, "key_refresh:cap_xs:zero", ok, "src/protocols/key_refresh.rs Round2::receive_message", "share changes are accepted only if they add up to the identity"))
    return obs, funcs


def run(F, prop):
    obs, funcs = ct.run(F, prop, canon=SssCanon)
    if prop == "C32":
        o, f = accepted(F, prop)
        obs, funcs = obs + o, funcs | f
    return obs, funcs


if __name__ == "__main__":
    ct.main(canon=SssCanon)
