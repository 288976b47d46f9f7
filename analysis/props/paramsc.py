"""C16: the relations between security parameters are asserted at build time for every parameter set."""
from ..low import *
from ..terms import le, eq, mul, mk0
from ..terms import add as add2
from ..obligations import Ob
from ..roots import run_vf


def add(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = add2(t, x)
    return t


PT, ST = "paillier::params::PaillierParams", "params::traits::SchemeParams"


def pa(self_):
    c = lambda n: mk0("const", f"<{self_} as {PT}>::{n}")
    w = lambda n: mk0("const", f"<<{self_} as {PT}>::{n} as crypto_bigint::Bounded>::BITS")
    return {
        "the modulus is twice as long as a prime": eq(c("MODULUS_BITS"), mul(const(2), c("PRIME_BITS"))),
        "a prime fits HalfUint": le(c("PRIME_BITS"), w("HalfUint")),
        "the modulus fits Uint": le(c("MODULUS_BITS"), w("Uint")),
        "Uint is at least as wide as HalfUint": le(w("HalfUint"), w("Uint")),
        "the squared modulus fits WideUint": le(mul(const(2), c("MODULUS_BITS")), w("WideUint")),
        "WideUint is at least as wide as Uint": le(w("Uint"), w("WideUint")),
    }


def sc(self_):
    c = lambda n: mk0("const", f"<{self_} as {ST}>::{n}")
    p = lambda n: mk0("const", f"<<{self_} as {ST}>::Paillier as {PT}>::{n}")
    kap = mk0("trunc", "u32", c("SECURITY_PARAMETER"))
    nb = mk0("const", f"<<<{self_} as {ST}>::Curve as elliptic_curve::CurveArithmetic>::Scalar as elliptic_curve::PrimeField>::NUM_BITS")
    ex = mk0("const", f"<<{self_} as {ST}>::ExtraWideUint as crypto_bigint::Bounded>::BITS")
    L, LP, EPS, N = c("L_BOUND"), c("LP_BOUND"), c("EPS_BOUND"), p("MODULUS_BITS")
    return {
        "the challenge size is the bit length of the curve order": eq(nb, kap),
        "the secret range covers the scalars": le(kap, L),
        "the slack exceeds the secret range by the challenge size": le(add(L, kap), EPS),
        "the range of masks covers three secret ranges and the slack": le(add(mul(const(3), L), EPS), LP),
        "the plaintext range holds masks with slack from 2^20 parties": le(add(LP, EPS, const(21)), N),
        "a prime is as long as two secret ranges and the slack": eq(add(mul(const(2), L), EPS), p("PRIME_BITS")),
        "the widest integer holds the responses of the no-small-factor proof": le(add(mul(const(2), N), L, EPS, const(1)), ex),
    }


def run(F, prop):
    obs, funcs = [], set()
    C = LowCanon(None, None, None)
    from ..vf import VF

    def body(f):
        funcs.add(f["path"])
        r = run_vf(F, f).result
        return r

    def boolean(t):
        return C.boolc(t)

    # what the build evaluates: module-level constant items
    care = TRUE
    guards = 0
    for f in F.fns:
        if f.get("kind") not in ("Const", "AnonConst") or not f.get("body") or f["body"]["argc"] or not re.search(r"::_(::\{constant#\d+\})?$", f["path"]) or f.get("generics"):
            continue
        r = body(f)
        ok = C.boolc(r.pc) if r.pc is not TRUE else TRUE
        t = r.ret
        if f["kind"] == "AnonConst":
            ok = b_and(ok, nonneg(t))
        if ok is not TRUE:
            guards += 1
            care = b_and(care, ok)
    for trait, need in ((PT, pa), (ST, sc)):
        fs = F.by_path.get(trait + "::SELF_CONSISTENT")
        cond = TRUE
        if fs:
            r = body(fs[0])
            cond = boolean(r.ret)
            for nm, want in need("Self").items():
                d = disagreement(C, C.boolc(want), TRUE, cond)
                obs.append(Ob("C16", f"{trait}::SELF_CONSISTENT:{nm}", d is None, fs[0].get("sp", trait), f"self-consistency implies: {nm}" if d is None else f"self-consistency does not imply that {nm}: {d[:600]}"))
        for im in F.impl_by_trait.get(trait, []):
            T_ = F.ty(im["self"]).s
            flag = mk0("const", f"<{T_} as {trait}>::SELF_CONSISTENT")
            own = [i for i in im["items"] if i[0] == "SELF_CONSISTENT"]
            d = "own" if own or not fs else disagreement(C, C.boolc(flag), TRUE, care)
            if d is None:
                obs.append(Ob("C16", f"{T_}:{trait.split('::')[-1]}:asserted", True, im.get("sp", ""), "its self-consistency is asserted by an item the build evaluates"))
                continue
            bad = [nm for nm, want in need(T_).items() if disagreement(C, C.boolc(want), TRUE, care) is not None]
            obs.append(Ob("C16", f"{T_}:{trait.split('::')[-1]}:asserted", not bad, im.get("sp", ""),
                          "the relations are asserted by items the build evaluates" if not bad else f"no item evaluated by the build asserts for this parameter set: {'; '.join(bad)}"))
    obs.append(Ob("C16", "guards", guards > 0, "", f"{guards} build-time assertions found"))
    return obs, funcs


def nonneg(t):
    """The condition under which an array length is a number"""
    if t.op == "ite":
        return ite(t.args[0], nonneg(t.args[1]), nonneg(t.args[2]))
    return le(const(0), t)


REGISTRY = {"C16": [run]}
RULES = {"C16": "Rules: the boolean defined by SELF_CONSISTENT of each parameter trait implies every prescribed relation (case splitting over its conditions with linear integer reasoning on the associated constants); for every implementation of the traits, "
         "a constant item that the compiler evaluates fails to build unless that implementation is self-consistent (the item's value flow is evaluated symbolically; an own SELF_CONSISTENT is not trusted but decided on the relations)."}
TECH = {"C16": "symbolic evaluation of the compile-time assertions from MIR of constant items; implication of the prescribed linear relations"}
NOTES = {"C16": "The numeric evaluation of the assertions is the compiler's own, at every build."}
