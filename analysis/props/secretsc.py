"""C08, C09, C10: where secrets may go, what they may decide, how they are kept."""
import re
from ..obligations import Ob
from ..roots import Roots, self_type
from ..calls import all_sites, owner
from ..api import KNOWN
from ..taint import Taint, WRAPPERS

SK = "paillier::keys::SecretKeyPaillier"
SS, SU, SEC = "uint::secret_signed::SecretSigned", "uint::secret_unsigned::SecretUnsigned", "tools::secret::Secret"
IS, KR = "protocols::interactive_signing", "protocols::key_refresh"


def _mulpt(a, b):
    return f"tools::secret::<impl core::ops::Mul<{a}tools::secret::Secret<curve::arithmetic::Scalar<P>>> for {b}curve::arithmetic::Point<P>>::mul"


# Operations the protocols prescribe for turning a secret into a public value. Each is decided elsewhere: what it computes.
DECLASS = {
    f"{SEC}::<curve::arithmetic::Scalar<P>>::mul_by_generator": "multiplication with the group generator",
    **{_mulpt(a, b): "multiplication with a group element" for a in ("", "&") for b in ("", "&")},
    "<T as uint::traits::Exponentiable<uint::secret_signed::SecretSigned<V>>>::pow": "commitment: exponentiation",
    "<T as uint::traits::Exponentiable<uint::secret_unsigned::SecretUnsigned<V>>>::pow": "commitment: exponentiation",
    f"{SK}::<P>::random_nonsquare_residue": "commitment of the Paillier-Blum proof",
    f"{SK}::<P>::rns_join": "root published in the Paillier-Blum proof",
}
RAWF = [(SK, "monty_params_mod_p"), (SK, "monty_params_mod_q")]
PUBLISH = f"{SS}::<T>::to_public"
SIGMA = f"<{IS}::Round3<P, Id> as manul::protocol::Round<Id>>::finalize"
PROOFS = ["aff_g::AffGProof", "aff_g_star::AffGStarProof", "dec::DecProof", "elog::ElogProof", "enc_elg::EncElgProof", "fac::FacProof", "mod_::ModProof", "prm::PrmProof", "sch::SchProof"]
PROOFNEW = {f"zk::{p}::<P>::new" for p in PROOFS}

# functions that hand out (or compute) an exposed value: the building blocks of the layer that manages secrets
RETURNS = {
    f"{SEC}::<T>::expose_secret", f"{SEC}::<T>::expose_secret_mut", f"<{SEC}<T> as serde::Serialize>::serialize",
    *(f"{SS}::<T>::{m}" for m in ("new_positive", "is_negative", "new_from_unsigned", "new_from_abs", "new_modulo", "is_in_exponent_range", "ensure_exponent_range")),
    *(f"{SU}::<T>::{m}" for m in ("is_zero", "new", "expose_secret")),
    "curve::arithmetic::<impl tools::secret::Secret<curve::arithmetic::Scalar<P>>>::to_signing_key",
    *(f"{SK}::<P>::{m}" for m in ("rns_split", "sqrt_part", "rns_sqrt")),
}
# (type, field) that may receive an exposed value: functions that may store it there (None: any, the type is a plain value)
STORES = {
    ("curve::arithmetic::Point", "0"): None,
    ("curve::arithmetic::Scalar", "0"): None,
    ("uint::public_uint::PublicUint", "0"): None,
    ("uint::public_signed::PublicSigned", "value"): None,
    ("uint::public_signed::PublicSigned", "bound"): None,
    (SK, "monty_params_mod_p"): {f"{SK}::<P>::new", f"<{SK}<P> as core::clone::Clone>::clone"},
    (SK, "monty_params_mod_q"): {f"{SK}::<P>::new", f"<{SK}<P> as core::clone::Clone>::clone"},
    (IS + "::Round3EchoBroadcast", "delta"): {f"<{IS}::Round2<P, Id> as manul::protocol::Round<Id>>::finalize"},
    (IS + "::Round4", "sigma"): {SIGMA},
    (KR + "::Round3DirectMessage", "cap_c"): {f"<{KR}::Round3<P, Id> as manul::protocol::Round<Id>>::make_direct_message"},
    (KR + "::Error", "y"): {f"<{KR}::Round3<P, Id> as manul::protocol::Round<Id>>::receive_message"},
    ("paillier::encryption::Ciphertext", "ciphertext"): {"paillier::encryption::Ciphertext::<P>::new_with_randomizer_inner"},
    ("paillier::encryption::MaskedRandomizer", "0"): {"paillier::encryption::Randomizer::<P>::to_masked"},
    ("paillier::rsa::PublicModulusWire", "0"): {"paillier::rsa::PublicModulusWire::<P>::new"},
    ("tools::sss::PublicPolynomial", "0"): {"tools::sss::Polynomial::<P>::public"},
    (SU, "bound"): {f"{SU}::<T>::add_mod"},  # the bit length of the modulus
    **{(f"zk::{p}", x): {f"zk::{p}::<P>::new"} for p, xs in (("elog::ElogProof", "uz"), ("enc_elg::EncElgProof", "w")) for x in xs},
    **{(f"zk::{p}", "proof"): {f"zk::{p}::<P>::new"} for p in ("mod_::ModProof", "prm::PrmProof", "sch::SchProof")},
}
SERIALIZE = {f"<{SEC}<T> as serde::Serialize>::serialize"}
# types with secrets that may be serialized
WIRE = {
    SEC, SK + "Wire", "paillier::rsa::SecretPrimesWire",
    "entities::full::KeyShare", "entities::full::KeyShareChange", "entities::full::AuxInfo", "entities::full::SecretAuxInfo",
    "entities::threshold::ThresholdKeyShare", "protocols::key_resharing::Round1DirectMessage",
}
# C09: places where the course may depend on a value derived from secrets, because the protocols publish it: (function, kind) -> most places
BRANCHES = {
    (f"{SK}::<P>::rns_sqrt", "branch"): 1,  # whether both roots exist
    ("curve::arithmetic::Scalar::<P>::try_from_be_bytes", "branch"): 2,  # whether a stored scalar is well-formed
    ("entities::threshold::ThresholdKeyShare::<P, I>::derive_bip32", "branch"): 2,  # whether the share or a child of it is zero
}

# C10: fields of secret-holding types that are not wrapped although their type could hold a secret
PUBLICFIELDS = {
    (SS, "bound"), (SU, "bound"), (IS + "::Context", "scalar_message"), (IS + "::Round4", "sigma"), (IS + "::Round5", "deltas"),
    (IS + "::InteractiveSigning", "message"), ("entities::threshold::ThresholdKeyShare", "threshold"),
}
PLAIN = r"curve::arithmetic::Scalar|crypto_bigint::|::Uint$|::HalfUint$|::WideUint$|::ExtraWideUint$|::Monty|GenericArray|^\[|^T$|generic_array"


class World:
    def __init__(self, F):
        self.F = F
        self.A = A = Taint(F, lambda p: p in DECLASS, RAWF, [PUBLISH], [f"{SK}::<P>::rns_sqrt"], {k for k, v in STORES.items() if v is not None and k not in RAWF})
        self.own = {}
        for f in F.fns:
            if f.get("body") and "{closure" not in f["path"]:
                self.own[f["path"]] = A.run(f)
        self.R = Roots(F)
        self.sinks = {}
        for k, s in A.memo.items():
            for x in s.sinks:
                self.sinks.setdefault((x.kind, x.fn, (x.sp, x.bb), x.what), x)
        self.byfn = {}
        for k, s in A.memo.items():
            o = owner(s.path)
            t, n, c = self.byfn.get(o, (False, 0, 0))
            self.byfn[o] = (t or s.touched, max(n, s.sites), c + 1)


_W = {}


def world(F):
    if id(F) not in _W:
        _W.clear()
        _W[id(F)] = (F, World(F))
    return _W[id(F)][1]


def c08(F, prop):
    W = world(F)
    A, R = W.A, W.R
    obs, funcs = [], set(A.visited)
    bad = set()

    def flag(key, where, text):
        bad.add(key)
        obs.append(Ob(prop, key, False, where, text))

    # exposed values that a function hands to whoever calls it
    n = 0
    for f in F.fns:
        p = f["path"]
        s = W.own.get(p)
        if s is None:
            continue
        if p in DECLASS or p in RETURNS:
            continue
        if p not in KNOWN and R.roots(p) != {p}:
            continue  # a helper: decided where it is used
        n += 1
        if s.ret or s.muts:
            flag(f"{p}:returns", f.get("sp", p), "hands out a value computed from an exposed secret without a prescribed masking, encryption, commitment or group operation")
        else:
            obs.append(Ob(prop, f"{p}:returns", True, f.get("sp", p), "hands out no exposed secret"))
    # what is stored, printed, serialized or hashed
    stores = {}
    for (kind, fn, (sp, bb), what), x in W.sinks.items():
        roots = R.roots(fn)
        if kind == "store":
            allowed = STORES.get(what, ())
            ok = allowed is None or bool(allowed) and roots <= allowed
            key = f"{what[0]}.{what[1]}:stored-in:{'+'.join(sorted(roots))}"
            if ok:
                stores[key] = Ob(prop, key, True, sp, "the prescribed public value")
            elif key not in bad:
                flag(key, sp, f"an exposed secret value is stored in {what[0]}.{what[1]}")
        elif kind in ("format", "serialize", "hash"):
            if kind == "serialize" and roots <= SERIALIZE:
                continue
            key = f"{'+'.join(sorted(roots))}:{kind}"
            if key not in bad:
                flag(key, sp, {"format": "an exposed secret is formatted", "serialize": "an exposed secret is serialized", "hash": "an exposed secret is hashed"}[kind] + f" ({what})")
    obs += stores.values()
    # conversions to public integers happen in proofs only
    for s in all_sites(F):
        if s.callee == PUBLISH:
            roots = R.roots(s.fn["path"])
            ok = roots <= PROOFNEW
            obs.append(Ob(prop, f"{'+'.join(sorted(roots))}:to_public", ok, str(s.sp), "a response of the proof" if ok else "a secret integer is converted to a public one outside of the construction of a proof"))
    # types that can be written out
    holders = A.holders
    for tr in ("serde::Serialize",):
        for im in F.impl_by_trait.get(tr, []):
            t = F.ty(im["self"])
            if t.k != "adt" or not (t.path in holders):
                continue
            ok = t.path in WIRE
            obs.append(Ob(prop, f"{t.path}:serializable", ok, im.get("sp", ""), "a type meant for storage (or for its one recipient)" if ok else "a type that holds secrets can be serialized"))
    for p, a in sorted(F.adts.items()):
        if re.search(r"(EchoBroadcast|NormalBroadcast|DirectMessage|Proof|ProofElement|ProofElem|Commitment|Challenge|Wire|Error)$", p) and p not in WIRE:
            ok = p not in holders
            obs.append(Ob(prop, f"{p}:no-secrets", ok, a.get("sp", ""), "holds no secret" if ok else "a message or proof holds a secret"))
    return obs, funcs


def c09(F, prop):
    W = world(F)
    A, R = W.A, W.R
    obs, funcs = [], set(A.visited)
    hits = {}
    for (kind, fn, (sp, bb), what), x in W.sinks.items():
        if kind in ("branch", "index", "vartime"):
            for r in R.roots(fn):
                hits.setdefault((r, kind), {})[(sp, bb, str(what))] = (fn, what)
    seen = set()
    for p, (touched, sites, ctx) in sorted(W.byfn.items()):
        if not touched:
            continue
        if p not in KNOWN and R.roots(p) != {p}:
            continue
        seen.add(p)
        mine = {k: v for k, v in hits.items() if k[0] == p}
        left = 0
        for (r, kind), v in mine.items():
            if len(v) <= BRANCHES.get((r, kind), 0):
                continue
            for (sp, bb, w), (fn, what) in v.items():
                left += 1
                obs.append(Ob(prop, f"{p}:{kind}" + (":" + str(what).split("::")[-1] if kind == "vartime" else ""), False, sp,
                              {"branch": "the course of the computation depends on a secret-derived value", "index": "memory is accessed at a secret-derived position",
                               "vartime": f"a variable-time operation works on a secret: {what}"}[kind] + f" (in {fn})"))
        if not left:
            obs.append(Ob(prop, f"{p}:constant-course", True, p, f"handles exposed secrets; {sites} branches and calls, none decided by them ({ctx} calling contexts)"))
    for (r, kind), v in hits.items():
        if r not in seen and len(v) > BRANCHES.get((r, kind), 0):
            for (sp, bb, w), (fn, what) in v.items():
                obs.append(Ob(prop, f"{r}:{kind}", False, sp, f"secret-dependent {kind} (in {fn}): {what}"))
    return obs, funcs


SECRET_TYPES = {  # type -> fields that must keep their secret inside the wrapper
    SEC: ["0"], SS: ["value"], SU: ["value"], "paillier::rsa::SecretPrimesWire": ["p", "q"], "paillier::rsa::SecretPrimes": ["primes", "totient"],
    SK: ["primes", "inv_totient", "inv_modulus", "inv_p_mod_q", "nonsquare_sampling_constant"], SK + "Wire": ["primes"],
    "paillier::encryption::Randomizer": ["randomizer", "randomizer_mod"], "paillier::ring_pedersen::RPSecret": ["primes", "lambda"],
    "tools::sss::Polynomial": ["0"], "zk::sch::SchSecret": ["0"], "zk::prm::PrmSecret": ["0"],
    "entities::full::KeyShare": ["secret"], "entities::full::KeyShareChange": ["secret_share_change"], "entities::full::AuxInfo": ["secret"], "entities::full::SecretAuxInfo": ["paillier_sk"],
    "entities::full::AuxInfoPrecomputed": ["secret_aux"], "entities::full::SecretAuxInfoPrecomputed": ["paillier_sk"], "entities::threshold::ThresholdKeyShare": ["secret_share"],
    "protocols::aux_gen::Context": ["paillier_sk"], "protocols::key_init::Context": ["x", "tau"], KR + "::Context": ["paillier_sk", "xs", "ys", "taus"],
    IS + "::Context": ["key_share", "aux_info", "k", "gamma", "a", "b", "rho", "nu"], IS + "::PresigningData": ["tilde_k", "tilde_chi"],
    IS + "::Round2": ["betas", "rs", "ss", "hat_betas", "hat_rs", "hat_ss"], IS + "::Round2Payload": ["alpha", "hat_alpha"], IS + "::Round3": ["chi", "betas", "rs"],
    IS + "::Round5": ["betas", "ss", "rs"], IS + "::Round6": ["hat_betas", "hat_ss", "hat_rs"], IS + "::InteractiveSigning": ["key_share", "aux_info"],
    KR + "::Round3Payload": ["x"], "protocols::key_resharing::OldHolder": ["key_share"], "protocols::key_resharing::OldHolderData": ["polynomial"],
    "protocols::key_resharing::Round1DirectMessage": ["subshare"], "protocols::key_resharing::Round1Payload": ["subshare"],
    "zk::aff_g::AffGSecretInputs": ["x", "y", "rho", "rho_y"], "zk::aff_g_star::AffGStarSecretInputs": ["x", "y", "rho", "mu"], "zk::dec::DecSecretInputs": ["x", "y", "rho"],
    "zk::elog::ElogSecretInputs": ["y", "lambda"], "zk::enc_elg::EncElgSecretInputs": ["x", "rho", "b"],
    "zk::aff_g_star::AffGStarProofEphemeral": ["alpha", "beta", "r", "s"], "zk::dec::DecProofEphemeral": ["alpha", "beta", "r"],
}
ESCAPES = r"(^|::)(mem::(forget|transmute|transmute_copy|zeroed|MaybeUninit.*)|ManuallyDrop.*|ptr::(read|write|copy).*|Box::<.*>::(leak|into_raw|into_non_null)|Vec::<.*>::(leak|into_raw_parts)|Rc::<.*>::into_raw|Arc::<.*>::into_raw)(::|$)"


def c10(F, prop):
    W = world(F)
    A, R = W.A, W.R
    obs, funcs = [], set()
    holders = A.holders
    # the wrapper itself
    a = F.adts.get(SEC)
    fs = [fl for v in a["variants"] for fl in v["fields"]] if a else []
    ok = len(fs) == 1 and F.ty(fs[0][1]).path == "secrecy::SecretBox"
    obs.append(Ob(prop, "Secret:representation", ok, a["sp"] if a else "", "one field, a self-erasing SecretBox" if ok else "the wrapper does not keep its value in a SecretBox"))
    # the traits that would reveal contents
    for tr in ("core::ops::Deref", "core::ops::DerefMut", "core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow", "core::borrow::BorrowMut", "core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex",
               "core::fmt::Binary", "core::marker::Copy", "core::hash::Hash", "core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord"):
        for im in F.impl_by_trait.get(tr, []):
            t = F.ty(im["self"])
            while t.k == "ref":
                t = t.args[0]
            if t.path in (SEC, SS, SU, "paillier::encryption::Randomizer"):
                obs.append(Ob(prop, f"{t.path}:{tr.split('::')[-1]}", False, im.get("sp", ""), "the type of a secret value implements a trait that hands out, compares or copies its contents"))
    # fields
    for p in sorted(holders):
        a = F.adts.get(p)
        if not a or p in WRAPPERS:
            continue
        for v in a["variants"]:
            for fl in v["fields"]:
                t = F.ty(fl[1])
                key = f"{p}.{fl[0]}:kept"
                if A.protected(t):
                    obs.append(Ob(prop, key, True, a["sp"], f"inside the wrapper: {t.s}"[:300]))
                elif (p, fl[0]) in PUBLICFIELDS or not re.search(PLAIN, plain(t)) and not raw_bytes(t):
                    obs.append(Ob(prop, key, True, a["sp"], f"public: {t.s}"[:300]))
                else:
                    obs.append(Ob(prop, key, False, a["sp"], f"a type that holds secrets has a plain field of a type that secrets have: {t.s}"[:600]))
    for p, names in SECRET_TYPES.items():
        a = F.adts.get(p)
        if not a:
            continue
        fl = {x[0]: F.ty(x[1]) for v in a["variants"] for x in v["fields"]}
        n = sum(1 for t in fl.values() if A.protected(t))
        miss = [x for x in names if x in fl and not A.protected(fl[x])]
        ok = not miss and n >= len(names)
        obs.append(Ob(prop, f"{p}:secrets", ok, a["sp"], f"{n} wrapped fields" if ok else f"secret field not inside the wrapper: {', '.join(miss) or 'fewer wrapped fields than the secrets of the type'}"))
    # nothing escapes its destructor
    esc = 0
    for s in all_sites(F):
        if re.search(ESCAPES, s.callee):
            esc += 1
            obs.append(Ob(prop, f"{'+'.join(sorted(R.roots(s.fn['path'])))}:{s.callee.split('::')[-1]}", False, str(s.sp), f"a value can escape its destructor or be copied behind its back: {s.callee}"))
    if not esc:
        obs.append(Ob(prop, "destructors", True, "", "no call that forgets, leaks, transmutes or duplicates a value in the crate"))
    # heap buffers with exposed contents
    for (kind, fn, (sp, bb), what), x in W.sinks.items():
        if kind == "dropped":
            obs.append(Ob(prop, f"{'+'.join(sorted(R.roots(fn)))}:dropped", False, sp, f"a heap buffer with secret contents is freed without being erased: {what}"))
    # no printing of exposed values
    hit = {}
    for (kind, fn, (sp, bb), what), x in W.sinks.items():
        if kind == "format":
            hit.setdefault("+".join(sorted(R.roots(fn))), (sp, what))
    for k, (sp, what) in hit.items():
        obs.append(Ob(prop, f"{k}:prints", False, sp, f"an exposed secret is formatted: {what}"))
    for tr in ("core::fmt::Debug", "core::fmt::Display"):
        for im in F.impl_by_trait.get(tr, []):
            t = F.ty(im["self"])
            if t.path in holders:
                for nm, k, _ in im["items"]:
                    f = F.by_key.get(k)
                    if nm == "fmt" and f and f.get("body"):
                        funcs.add(f["path"])
                        if not any(h == f["path"] for h in hit):
                            obs.append(Ob(prop, f"{t.path}:{tr.split('::')[-1]}", True, f.get("sp", ""), "prints no exposed secret"))
                        if t.path == SEC:
                            used = mentions_self(f)
                            obs.append(Ob(prop, "Secret:redacted", not used, f.get("sp", ""), "the text does not depend on the value" if not used else "the text of the wrapper depends on the value it holds"))
    # erasure of the crate's own types
    for im in F.impl_by_trait.get("zeroize::Zeroize", []):
        t = F.ty(im["self"])
        for nm, k, _ in im["items"]:
            f = F.by_key.get(k)
            if nm == "zeroize" and f and f.get("body"):
                funcs.add(f["path"])
                ad = F.adts.get(t.path)
                n = len(ad["variants"][0]["fields"]) if ad else 1
                got = erased(f)
                obs.append(Ob(prop, f"{t.path}:erased", got >= set(range(n)), f.get("sp", ""), "every field is erased on every path" if got >= set(range(n)) else f"field(s) {sorted(set(range(n)) - got)} not erased"))
    return obs, funcs


def plain(t):
    """The type's own name, without what its parameters would bring in."""
    while t.k in ("ref", "slice") and t.args:
        t = t.args[0]
    s = t.s
    if t.k == "adt" and re.search(r"BTreeMap|SerializableMap|Vec$|Option$|Box$|BTreeSet|tuple", t.path or ""):
        return " ".join(plain(a) for a in t.args)
    if t.k == "tuple":
        return " ".join(plain(a) for a in t.args)
    if t.k == "adt":
        return t.path
    return s


def raw_bytes(t):
    while t.k == "ref" and t.args:
        t = t.args[0]
    if t.k in ("slice", "array"):
        return True
    return t.k == "adt" and t.path in ("alloc::vec::Vec", "alloc::boxed::Box") and t.args and (t.args[0].k in ("slice",) or t.args[0].s in ("u8", "u32", "u64")) or t.s in ("u64", "u128", "i64", "i128")


def mentions_self(f):
    def has(o):
        if isinstance(o, dict):
            for k in ("m", "c"):
                if k in o and isinstance(o[k], list) and o[k] and o[k][0] == 1:
                    return True
            return any(has(v) for v in o.values())
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 1 and isinstance(o[1], list):
                return True
            return any(has(v) for v in o)
        return False

    for bl in f["body"]["blocks"]:
        for st in bl[0]:
            if has(st[1]):
                return True
        if has(bl[1].get("args", [])):
            return True
    return False


def erased(f):
    """Indices of self's fields whose zeroize() is called on every path (a call in a block that every return passes)."""
    b = f["body"]
    refs, got = {}, {}
    for bi, bl in enumerate(b["blocks"]):
        for st in bl[0]:
            rv = st[1]
            if rv["k"] == "ref" and not st[0][1]:
                pl = rv["p"]
                fi = [p["i"] for p in pl[1] if isinstance(p, dict) and "f" in p]
                if pl[0] == 1 and len(fi) == 1:
                    refs[st[0][0]] = fi[0]
                elif pl[0] in refs and not fi:
                    refs[st[0][0]] = refs[pl[0]]
            elif rv["k"] == "use":
                src = rv["a"].get("m") or rv["a"].get("c")
                if src and src[0] in refs and not src[1]:
                    refs[st[0][0]] = refs[src[0]]
        t = bl[1]
        if t["k"] == "call":
            fk = t["f"].get("k")
            fn = fk.get("fn") if isinstance(fk, dict) else None
            if fn and fn["path"].endswith("::zeroize") and t["args"]:
                src = t["args"][0].get("m") or t["args"][0].get("c")
                if src and src[0] in refs:
                    got.setdefault(refs[src[0]], set()).add(bi)

    def reach(avoid):
        seen, st = set(), [0]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            t = b["blocks"][x][1]
            if t["k"] == "return":
                return True
            st += [y for y in succ(t)]
        return False

    def succ(t):
        o = []
        if t["k"] == "switch":
            o += [x[1] for x in t["ts"]] + ([t["else"]] if t.get("else") is not None else [])
        elif t.get("t") is not None and not isinstance(t["t"], list):
            o.append(t["t"])
        return o

    return {i for i, bs in got.items() if not reach(bs)}


REGISTRY = {"C08": [c08], "C09": [c09], "C10": [c10]}
RULES = {
    "C08": "Interprocedural secret-flow analysis over MIR of every function: a value is exposed once it is read out of the Secret wrapper or computed from such a value, until it goes back into a wrapper or through a prescribed operation (encryption, exponentiation, generator multiplication, masked response). "
           "Rules: no function outside the listed core of the secret layer hands out an exposed value (result or &mut argument); an exposed value is stored only in the listed public fields by the listed functions; none is formatted, hashed or serialized; conversions to public integers occur in proof constructors only; "
           "only the listed types holding secrets are serializable, and no message or proof type holds one.",
    "C09": "Same flow analysis. Rules: no switch, assertion with two live outcomes, index, iterator decision (any, find, filter, ...), slice comparison or *_vartime operation has an exposed secret as its deciding operand, in any calling context of any function; branches whose other side always aborts are allowed (abort-only). "
           "Declared public by the protocols: whether both residues of the Paillier-Blum proof have roots.",
    "C10": "Rules over types: the wrapper holds exactly one SecretBox (which erases on drop); every field of every type that (transitively) holds a secret is either wrapped or of a type secrets do not have; the known secret fields stay wrapped; no trait of the secret types hands out, compares or copies contents; "
           "no call in the crate forgets, leaks, transmutes or duplicates a value; no Debug/Display body formats an exposed value and the wrapper's does not read its value; crate-defined Zeroize erases every field on every path.",
}
TECH = {
    "C08": "interprocedural, context-sensitive taint analysis over MIR with declared declassifiers; type rules on serializable types",
    "C09": "interprocedural taint analysis over MIR: control, index and variable-time sinks",
    "C10": "type-structure rules on all types that hold secrets; taint on formatting; MIR rules on erasure and destructor escapes",
}
NOTES = {
    "C08": "Explicit flows; implicit flows need a secret-dependent branch, which C09 excludes. That the prescribed operations mask or encrypt correctly is C02, C05, C06, C12 and C14.",
    "C09": "At the level of MIR of this crate; instructions chosen by the compiler and the inside of external crates (crypto-bigint, k256) are assumed to be as documented (see N03).",
    "C10": "Copies the compiler leaves in registers or on the stack are outside of the crate's source and not covered.",
}
