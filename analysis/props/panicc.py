"""C19: no abort (failed assertion, unwrap/expect of a failure, index out of range, explicit panic) can be reached from received data.

Every function that processes received data is a root: the round methods and evidence checks of the protocols, the verifiers of
the proofs, the decoders. From each root the conditions of all aborts of the function and of the helpers it calls are computed
over its inputs, and discharged from the path condition, from algebra (what is invertible), or from a contract of the callee
(then checked here as well). What remains is a violation naming the site."""
import os, re
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp
from ..obligations import Ob
from ..api import KNOWN
from ..roots import run_vf
from ..terms import *
from ..protos import subterms
from ..prov import Prov, call
from ..low import LowCanon, disagreement, Runner
from ..vf import Unsupported, VF
from . import uintc, curvec, paillierc, provc

PROOFS = {  # module -> the pairs of verifier inputs that name the same key
    "aff_g": "AffGProof", "aff_g_star": "AffGStarProof", "dec": "DecProof", "elog": "ElogProof", "enc_elg": "EncElgProof",
    "fac": "FacProof", "mod_": "ModProof", "prm": "PrmProof", "sch": "SchProof",
}
OUTER = re.compile(r"^tools::hashing::|Hashable|^params::conversion::|Serialize|from_xof_reader|^tools::bitvec|modulus_signed$|^curve::")
OPT = "core::option::Option"
A2 = mk0("in", "a2")
A1 = mk0("in", "a1")


def zk_leaf(info):
    p = info.rpath or info.path
    return info.cname() if p in KNOWN and OUTER.search(p) else None


def iscall(x, s):
    return x.op == "call" and re.search(s, x.args[0])


def root(x):
    while x.op in ("fld", "elem"):
        x = x.args[0]
    return x


def last(x):
    while x.op == "fld" and x.args[1] in ("0",):
        x = x.args[0]
    return x.args[1] if x.op == "fld" else None


class Inv:
    """When an element of a ring Z/n is invertible: powers, products and inverses by the group laws; a value reduced
    modulo N^2 exactly when it is coprime to N"""

    def __init__(self, keys=()):
        self.memo = {}
        self.keys = keys

    def go(self, t):
        if t in self.memo:
            return self.memo[t]
        if t.op != "ite":
            return t
        c, a, b = self.atom(t.args[0]), self.go(t.args[1]), self.go(t.args[2])
        r = b_or(b_and(c, a), b_and(b_not(c), b)) if a in (TRUE, FALSE) or a.op == "ite" else ite(c, a, b)
        self.memo[t] = r
        return r

    def atom(self, a):
        if a.op == "is" and a.args[1] == OPT and iscall(a.args[0], r"Invert::invert(_vartime)?$"):
            r = self.inv(a.args[0].args[2])
            return r if a.args[2] == 1 else b_not(r)
        if a.op == "is" and a.args[1] == OPT and a.args[0].op == "INV":
            return atom(a)
        if iscall(a, "bit_vartime$"):  # the sign of what is non-negative by construction
            v = a.args[2]
            if v.op == "fld" and v.args[1] == "value" and iscall(v.args[0], "modulus_signed$|public_signed_from_scalar$"):
                return FALSE
        if a.op == "eq":
            x, y = a.args
            if root(x) is A1 and root(y) is A1 and last(x) == "modulus" == last(y):
                return TRUE  # one key in two roles: part of the statement (C21)
        return atom(a)

    def inv(self, b):
        while iscall(b, "PowBoundedExp::pow_bounded_exp$"):
            b = b.args[2]
        if b.op == "ite":
            c = self.go(b_or(b_and(atom(b.args[0]), TRUE), FALSE))
            return b_or(b_and(c, self.inv(b.args[1])), b_and(b_not(c), self.inv(b.args[2])))
        if iscall(b, "ops::Mul::mul$"):
            return b_and(self.inv(b.args[2]), self.inv(b.args[3]))
        x = b.args[0] if b.op == "fld" and b.args[1] in ("Some.0", "0") else b
        if iscall(x, r"Invert::invert(_vartime)?$"):
            return TRUE
        if iscall(b, "Monty::new$") and iscall(b.args[2], "to_wide$"):
            w, p = b.args[2].args[2], b.args[3]
            if p.op == "fld" and p.args[1] == "monty_params_mod_n_squared":
                n = fld(fld(fld(p.args[0], "modulus"), "modulus"), "0")
                return atom(mk0("eq", call("crypto_bigint::Integer::one"), call("crypto_bigint::Gcd::gcd", w, n)))
        return atom(mk0("is", call("INV", b), OPT, 1))


SETUP = b_and(*(atom(mk0("is", call("INV", fld(A2, n)), OPT, 1)) for n in ("base_value", "base_randomizer")))


def configuration(a):
    """about constants of the scheme parameters and the number of parties only"""
    todo = list(a.args)
    while todo:
        x = todo.pop()
        if x.op in ("in", "iv", "bv", "fresh"):
            return False
        if x.op == "fld" and x.args[1] == "num_parties" or x.op == "len" and last(x.args[0]) == "all_ids" or x.op == "c":
            continue
        if x.op == "lin":
            todo += [y for y, _ in x.args[1]]
        elif x.op == "call" and len(x.args) > 2:
            return False
        else:
            todo += [y for y in x.args if hasattr(y, "op")]
    return True


def dead(I, cond, ctx=TRUE):
    """the abort cannot happen"""
    c = b_and(I.go(cond), ctx)
    if c is FALSE:
        return True
    for a in atoms_of(c):
        if a.op == "exists" and implies(c, atom(a)):
            if dead(I, b_and(a.args[2], restrict_true(c, a)), ctx):
                return True
    if VF.underflow:
        for a in atoms_of(c):  # a subtraction of configuration values underflows: not for the scheme parameters in use (C08)
            if a.op == "pos" and (implies(c, atom(a)) or implies(c, b_not(atom(a)))) and configuration(a):
                return True
    for a in atoms_of(c):  # lengths that were compared before
        if a.op == "eq" and any(y.op == "len" for y in a.args) and implies(c, atom(a)):
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if u.op == "len" and not contains(v, lambda z: z is u):
                    d = subst(restrict_true(c, a), {u: v})
                    if d is FALSE or d is not c and dead(I, d, ctx):
                        return True
            break
    return False


def restrict_true(c, a):
    return subst(c, {a: TRUE})


def site(a, what=True):
    return f"{a.sp} ({a.kind} in {a.fn.split('::')[-1] if '<' not in a.fn else a.fn[-70:]})"


def why(I, a):
    c = I.go(a.cond)
    need = [show(x, 5)[:160] for x in atoms_of(c) if implies(c, atom(x))][:4] + ["not " + show(x, 5)[:160] for x in atoms_of(c) if implies(c, b_not(atom(x)))][:6]
    return f"{site(a)} can be reached when " + "; ".join(need)


def check_verifiers(F, obs, funcs):
    for m, ty in PROOFS.items():
        p = f"zk::{m}::{ty}::<P>::verify"
        fs = F.by_path.get(p)
        if not fs or not fs[0].get("body"):
            obs.append(Ob("C19", f"{p}:anchor", False, p, "the verifier no longer exists"))
            continue
        try:
            vf = run_vf(F, fs[0], zk_leaf)
        except (Unsupported, RecursionError, KeyError) as e:
            obs.append(Ob("C19", f"{p}:analysis", False, p, f"cannot be analysed: {e}"))
            continue
        funcs |= set(vf.analysed)
        I = Inv()
        ab = [a for a in vf.aborts if a.cond is not FALSE]
        bad = [a for a in ab if not dead(I, a.cond, SETUP)]
        for a in bad:
            obs.append(Ob("C19", f"{p}:{a.sp}", False, p, why(I, a)))
        if not bad:
            obs.append(Ob("C19", f"{p}:aborts", True, p, f"none of the {len(ab)} possible aborts is reachable from the proof and the statement"))
        check_hashed(p, m, vf, obs)
        if m == "prm":
            # invertibility of the bases of a received setup, used for the verifiers above
            acc = vf.result.ret
            acc = b_and(tobool(acc), vf.result.pc) if acc.op == "ite" or acc in (TRUE, FALSE) else None
            for n in ("base_value", "base_randomizer"):
                ok = acc is not None and accepts_invertible(acc, n)
                obs.append(Ob("C19", f"{p}:{n}", ok, p, f"accepting the setup implies that {n} is invertible modulo N"))


POINTOP = re.compile(r"^(core::ops::(Mul::mul|Add::add|Neg::neg|Sub::sub)|curve::arithmetic::.*(mul_by_generator|lincomb).*|tools::secret::.*mul_by_generator)$")


def check_hashed(p, m, vf, obs):
    """the identity point has no hash: a verifier hashes points it received, not results of arithmetic; `S` of the dec proof is
    derived by the receiver from a scalar of the prover and is compared with the identity first"""
    n = 0
    for pc, name, args, where in vf.events:
        if not re.search(r"hashing::(Chain|HashableExt|Hashable)\b.*::chain", name) or len(args) < 2:
            continue
        n += 1
        bad = [x for x in subterms(args[-1]) if x.op == "call" and POINTOP.search(x.args[0]) and "curve" in str(x.args[1])]
        if bad:
            obs.append(Ob("C19", f"{p}:hashed", False, where[2], f"hashes the result of point arithmetic, {show(bad[0], 4)[:200]}, which fails when it is the identity"))
        if m == "dec" and any(x is fld(A1, "cap_s") for x in subterms(args[-1])):
            ok = any(a.op == "eq" and fld(A1, "cap_s") in a.args and any(iscall(y, r"Point::<P>::identity$") for y in a.args) and implies(pc, b_not(atom(a))) for a in atoms_of(pc))
            obs.append(Ob("C19", f"{p}:cap_s", ok, where[2], "S is hashed only after it was compared with the identity"))
    obs.append(Ob("C19", f"{p}:items", n > 0, p, f"{n} hashed items"))


def check_odd(F, obs, funcs):
    """decoding an RSA modulus fails for even values (Montgomery arithmetic modulo N needs an odd N)"""
    T = "paillier::rsa::PublicModulusWire"
    fns = [p for p in sorted(F.by_path) if T in p and re.search(r"Deserialize<'de>.*(::deserialize|::visit_\w+)$", p) and F.by_path[p][0].get("body")]
    n = 0
    for p in fns:
        vf = run_vf(F, F.by_path[p][0], lambda info: None)
        funcs |= set(vf.analysed)
        ret = vf.result.ret
        good = is_ok(ret)
        if good is FALSE or not any(x.op in ("agg", "fld", "call") for x in subterms(ret)):
            continue
        v = fld(restrict(ret, good), "Ok.0")
        wrapped = [x for x in subterms(v) if iscall(x, r"SeqAccess::next_element$")]
        if wrapped:  # decoded by an inner type, which is looked at separately
            ok = all("__DeserializeWith" in str(x.args[1]) or "DeserializeWith" in " ".join(fns) for x in wrapped)
        elif v.op == "call" or v.op == "fld" and iscall(ret, "Deserializer::deserialize_"):
            continue  # hands over to a visitor
        else:
            ok = any(implies(good, atom(a)) and "odd" in show(a, 6) or implies(good, b_not(atom(a))) and "even" in show(a, 6) for a in atoms_of(good))
        n += 1
        obs.append(Ob("C19", f"{T}:{p.split('::')[-1]}:{'inner' if '>>::visit_seq::' in p else 'outer'}:odd", ok, p, "decoding an RSA modulus succeeds only for odd values"))
    obs.append(Ob("C19", f"{T}:decoders", n >= 1, T, f"{n} functions that decode an RSA modulus"))


def accepts_invertible(acc, n):
    for x in atoms_of(acc):
        if implies(acc, atom(x)):
            s = [y for y in subterms(x) if y.op == "fld" and y.args[1] == n]
            if s and any(iscall(y, r"invert|is_invertible|gcd") for y in subterms(x)):
                return True
    return False


# ---------------------------------------------------------------------------------------------------------- reachability
HANDLER = re.compile(r"^<protocols::.*::(receive_message|finalize|make_\w+|verify_\w+_is_invalid|verify_messages_constitute_error|required_messages|transition_info|communication_info)$")
DECODER = re.compile(r"Deserialize.*::deserialize$|TryFrom.*::try_from$|::visit_\w+$|::try_from_be_bytes$|::deserialize_\w+$|^<.* as core::convert::From<.*Wire.*>>::from$")
STOP = re.compile(r"^zk::.*::(verify|new)$")
# functions whose failure is decided in the context of the caller
PARTIAL = re.compile(r"^<tools::bitvec::BitVec as core::ops::BitXorAssign|^tools::bitvec::BitVec::from_bytes_unchecked$|^tools::bitvec::BitVec::bits$")
SSS = re.compile(r"^tools::sss::(Polynomial::<P>::evaluate|evaluate_polynomial|interpolation_coeff)$")


def books():
    con = {}
    for b in (uintc, curvec, paillierc):
        for k in b.ct:
            con.setdefault(k.path, []).append(k)
    return con


_F = _CON = None


def _analyse(p):
    """(calls of functions with checks of their own, aborts left over, functions analysed)"""
    fs = _F.by_path.get(p)
    if not fs or not fs[0].get("body"):
        return p, [], [], [], None
    calls = set()

    def leaf(info):
        q = info.rpath or info.path
        if PARTIAL.search(q) or q not in KNOWN:
            return None
        calls.add(q)
        return info.cname()

    try:
        vf = run_vf(_F, fs[0], leaf)
    except (Unsupported, RecursionError, KeyError) as e:
        return p, sorted(calls), [], [], str(e)
    I = Inv()
    left = []
    for a in vf.aborts:
        if a.cond is FALSE or dead(I, a.cond) or bounded(a.cond):
            continue
        c = same_length(a.cond)
        if c is FALSE or c is not a.cond and (dead(I, c) or bounded(c)):
            continue
        left.append((a.sp, a.kind, a.fn, shape(a), why(I, a)))
    return p, sorted(calls), left, sorted(vf.analysed), None


def shape(a):
    """what an abort is about, independent of names"""
    txt = show(a.cond, 40)
    if "overwrite" in txt or "bitxor" in a.fn:
        return "xor"
    if re.search(r"Serialize::serialize", str(a.what)) or "Serialize::serialize(" in txt:
        return "serialize"
    if iscall_any(a.cond, "::verify$"):
        return "verify"
    if a.kind.startswith("unimplemented") or a.kind == "todo":
        return "unimplemented"
    return ""


def iscall_any(t, s):
    return any(iscall(x, s) for x in subterms(t))


def same_length(cond):
    """lengths kept by updates in place: of a fold that overwrites elements of its accumulator, of a buffer filled by the generator"""
    d = {}
    for x in subterms(cond):
        if x.op == "len" and x.args[0].op == "fold":
            dom, bv, acc, init, body = x.args[0].args
            if body.op == "call" and body.args[0] == "overwrite" and body.args[2] is acc or body.op == "overwrite" and body.args[0] is acc:
                d[x] = length(init)
        elif x.op == "len" and x.args[0].op == "upd" and x.args[0].args[0] == "rand_core::RngCore::fill_bytes":
            y = x.args[0].args[2]
            d[x] = length(y.args[-1] if y.op == "fresh" else y)
        elif x.op == "eqz" and x.args[0].op == "mref":  # the null-pointer check of a build with debug assertions, on a reference
            d[x] = FALSE
        elif x.op == "pos":  # remainders and quotients of machine integers are not negative
            e, k = lin_parts(x.args[0])
            if k > 0 and all(v > 0 and y.op == "bin" and y.args[0] in ("Rem", "Div") for y, v in e.items()):
                d[x] = TRUE
            (y, v), = e.items() if len(e) == 1 else ((None, 0),)
            if v == 1 and y.op == "bin" and y.args[0] == "Rem" and is_const(y.args[2]) and y.args[2].args[0] - 1 + k <= 0:
                d[x] = FALSE
    return subst(cond, d) if d else cond


def bounded(cond):
    """an index i/k below a length, for all i < N, when the length is at least N/k rounded up"""
    for a in atoms_of(cond):
        if a.op != "exists" or not implies(cond, atom(a)):
            continue
        dom, bv, body = a.args
        d = {}
        for x in subterms(body):
            if x.op == "bin" and x.args[0] == "Div" and x.args[1] is bv and is_const(x.args[2]):
                k = x.args[2].args[0]
                d[x] = sub(mk0("bin", "Div", add(dom, const(k - 1)), x.args[2]), const(1))
        if not d:
            continue
        C = LowCanon(None, None, None)
        c = b_and(subst(body, d), restrict_true(cond, a))
        if disagreement(C, C.boolc(c), FALSE, TRUE) is None:
            return True
    return False


def check_reach(F, obs, funcs):
    global _F, _CON
    _F, _CON = F, books()
    roots = [p for p in sorted(F.by_path) if HANDLER.search(p) or DECODER.search(p)]
    seen, par = set(roots), {}
    callers = {}
    left = {}
    front = list(roots)
    n_handlers = sum(1 for p in roots if HANDLER.search(p))
    obs.append(Ob("C19", "roots", n_handlers >= 100, "src/protocols", f"{n_handlers} message handlers and {len(roots) - n_handlers} decoders"))
    used = set()
    ctx = mp.get_context("fork")
    jobs = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    with ProcessPoolExecutor(max_workers=jobs, mp_context=ctx) as ex:
        while front:
            todo = []
            for p in front:
                if p in _CON:
                    used.add(p)
                elif not STOP.search(p):
                    todo.append(p)
            front = []
            try:
                done = list(ex.map(_analyse, todo, chunksize=4))
            except BrokenProcessPool:  # a worker was ended, for want of memory: go on without them
                done = [_analyse(p) for p in todo]
            for p, calls, ab, an, e in done:
                funcs |= set(an)
                if e:
                    obs.append(Ob("C19", f"{p}:analysis", False, p, f"cannot be analysed: {e}"))
                if ab:
                    left[p] = ab
                for q in calls:
                    callers.setdefault(q, set()).add(p)
                    if q not in seen and q in F.by_path:
                        seen.add(q)
                        par[q] = p
                        front.append(q)
    return seen, par, callers, left, used


def allowed(V, p, ab, callers):
    """why an abort of a function that is not covered by a contract cannot be provoked; None when it can"""
    sp, kind, fn, sh, _ = ab
    if sh == "serialize" and re.search(r"Hashable", p):
        return "the serializer that feeds a hash returns no errors, and identities of points are not hashed (E: hashed points)"
    m = re.match(r"<protocols::(\w+)::", p)
    m = m and m.group(1)
    if sh == "xor" and m and p.endswith("::finalize"):
        if any(x.op == "len" or "len(" in show(x, 4) for x, y in provc.established(V, m, 3)):
            return "the lengths of the contributions were checked when they were received"
    if sh == "xor" and m and re.search(r"verify_messages_constitute_error$", p):
        return "lengths"
    if sh == "verify" and p == "<protocols::interactive_signing::Round6<P, Id> as manul::protocol::Round<Id>>::make_echo_broadcast":
        return "the party's own proof of a true statement (C05, C21)"
    if SSS.search(p):
        cs = callers.get(p, set())
        deg = any(x.op == "len" and "public_polynomial" in show(x, 6) for x, y in provc.established(V, "key_resharing", 9))
        if deg and all(re.search(r"^<?(tools::sss::|protocols::key_resharing::|entities::threshold::)", c) for c in cs):
            return "polynomials have as many coefficients as the threshold, which is positive, and share identifiers are distinct"
    return None


def run(F, prop):
    VF.underflow = getattr(F, "debug", False)
    try:
        return run_(F, prop)
    finally:
        VF.underflow = False


def run_(F, prop):
    obs, funcs = [], set()
    check_verifiers(F, obs, funcs)
    check_odd(F, obs, funcs)
    seen, par, callers, left, used = check_reach(F, obs, funcs)
    V = Prov(F)

    def chain(p):
        o = [p]
        while p in par:
            p = par[p]
            o.append(p)
        return o

    for p, abs_ in sorted(left.items()):
        for ab in abs_:
            r = allowed(V, p, ab, callers)
            if r is None:
                via = chain(p)
                obs.append(Ob("C19", f"{p}:{ab[1]}".replace(" ", ""), False, " <- ".join(x[-90:] for x in via[:4]), ab[4]))
            else:
                obs.append(Ob("C19", f"{p}:{ab[0]}", True, p, f"{ab[0]}: {r}"))
    obs.append(Ob("C19", "reached", len(seen) >= 600, "", f"{len(seen)} functions reachable from received data, {len(used)} of them covered by a contract, {sum(map(len, left.values()))} aborts left to context"))
    # the contracts relied on
    R = Runner(F)
    for p in sorted(used):
        for k in _CON[p]:
            VF.underflow = getattr(F, "debug", False) and bool(DECODER.search(p))
            R.check(k, "C19")
    funcs |= R.funcs
    obs += [o for o in R.obs if o.key.split(":")[-1] in ("panics", "anchor", "analysis", "guard")]
    return obs, funcs


REGISTRY = {"C19": [run]}
RULES = {
    "C19": "Roots: every round method and evidence check of the protocols, every verifier of a proof, every decoder. For each root and each function reachable from it (calls resolved on the "
    "typed program) the condition of every abort - failed assertion, unwrap or expect of a failure, index out of range, arithmetic check, explicit panic - is computed over the inputs by "
    "gated-SSA value-flow analysis of the MIR. Rule: each such condition is unsatisfiable, by the checks that precede it, by invertibility in Z/n (powers, products, inverses, coprimality), "
    "or by the contract of the function, which is checked here too. Anything else is reported with its site and the call chain from the message handler.",
}
TECH = {"C19": "gated-SSA value-flow analysis of MIR: abort conditions of everything reachable from message handlers and decoders, shown unsatisfiable"}
NOTES = {"C19": "Does not cover non-termination, memory exhaustion, or aborts inside external crates other than those their documentation states; the manul crate is a stub."}
