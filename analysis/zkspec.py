"""Specification of the nine proof systems (roles, challenge, ranges, equations, witness relations, masks)
and the procedure that compares them with the value-flow of the prover and the verifier.

Sources: CGGMP'24 (Figs. 14, 16, 17, 22, 23, 24, 25, 26, 28) with the deviations that the repository's
README and comments document (rho^{-1} instead of rho in Pi^aff-g, e reduced to a scalar, and so on).
"""
from .terms import *
from . import terms as tm
from .alg import *
from . import alg
from .vf import VF
from .api import ZK_LEAVES


def IN(n):
    return mk0("in", n)


# ---------------------------------------------------------------- little algebra DSL on canonical terms
class Rg:
    """ring element"""

    def __init__(self, t):
        self.t = t if isinstance(t, T) else const(t)

    def __add__(self, o):
        return Rg(padd(self.t, R(o).t))

    __radd__ = __add__

    def __sub__(self, o):
        return Rg(psub(self.t, R(o).t))

    def __rsub__(self, o):
        return Rg(psub(R(o).t, self.t))

    def __neg__(self):
        return Rg(pneg(self.t))

    def __mul__(self, o):
        if isinstance(o, Gr):
            return Gr(gmul(self.t, o.t))
        return Rg(pmul(self.t, R(o).t))

    __rmul__ = __mul__


def R(x):
    return x if isinstance(x, Rg) else Rg(x)


class Gr:
    """group element, written additively"""

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Gr(gadd(self.t, o.t))

    def __sub__(self, o):
        return Gr(gsub(self.t, o.t))

    def __neg__(self):
        return Gr(gmul(const(-1), self.t))

    def __rmul__(self, k):
        return Gr(gmul(R(k).t, self.t))


GEN = Gr(G)


def Enc(pk, m, r):
    return Gr(alg.enc(pk, R(m).t, r.t if isinstance(r, Gr) else r))


def OneN(pk):
    return Gr(alg.onepn(pk))


def Nth(pk, r):
    return Gr(alg.nu(pk, r))


def Com(setup, x, rho):
    return Gr(gadd(gmul(R(x).t, rps(setup)), gmul(R(rho).t, rpt(setup))))


def Pre(w, key):
    return Gr(mk0("call", "precomp", "", w, key))


def zint(e):
    return mk0("call", "zint", "", e)


def scl(z):
    """integer term reduced to a scalar"""
    c = Canon()
    return Rg(scal(c, z.t if isinstance(z, Rg) else z))


def zero(x):
    return eq0(x.t, "g" if isinstance(x, Gr) else "p")


P_ = mk0("c", ("unit",))


def pconst(name):
    """associated constants of the scheme parameters"""
    return name


# ---------------------------------------------------------------- samplers
SS = "uint::secret_signed::SecretSigned::<T>::"
SAMPLERS = {
    "exp": SS + "random_in_exponent_range",
    "scaled": SS + "random_in_exponent_range_scaled",
    "scaled_wide": SS + "random_in_exponent_range_scaled_wide",
    "scalar": "curve::arithmetic::Scalar::<P>::random",
    "randomizer": "paillier::encryption::Randomizer::<P>::random",
}
INRANGE = "uint::public_signed::PublicSigned::<T>::is_in_exponent_range"
SINRANGE = "uint::secret_signed::SecretSigned::<T>::is_in_exponent_range"
ASSERTRANGE = "uint::secret_signed::SecretSigned::<T>::assert_exponent_range"


def SP_(n):
    return mk0("const", f"<P as params::traits::SchemeParams>::{n}")



def is_fresh(t, kind, *args):
    if t.op != "fresh" or t.args[0] != SAMPLERS[kind]:
        return False
    a = t.args[4:]
    a = [x for x in a if x.op != "rng"]
    return len(a) == len(args) and all(x is y for x, y in zip(a, args))


def mask_in_range(c, ty, a):
    """Range literal of the verifier on an honest response: mask + challenge * secret with the mask drawn
    from exactly the interval that is checked (the sum leaves it with negligible probability only)."""
    z, bound = a
    if z.op == "ite":
        return lift(z, lambda x: mask_in_range(c, ty, [x, bound]) or mk0("call", INRANGE, ty, x, bound))
    ok = False
    masks = [(m, k) for m, k in pol(z).items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fresh"]
    for m, k in masks:
        f = m[0][0]
        if k not in (1, -1):
            continue
        args = [x for x in f.args[4:] if x.op != "rng"]
        if f.args[0] == SAMPLERS["exp"] and args[0] is bound:
            ok = True
        if f.args[0] == SAMPLERS["scaled"] and len(args) == 2:
            s = args[1]
            if s.op == "call" and s.args[0].endswith("::shl") and s.args[2] is const(1) and add(args[0], s.args[3]) is add(bound, const(0)):
                ok = True
            if s.op == "call" and s.args[0].endswith("::shl") and s.args[2] is const(1) and padd(args[0], s.args[3]) is bound:
                ok = True
    return TRUE if ok else None


# ---------------------------------------------------------------- Fiat-Shamir chains
CHAIN = "tools::hashing::Chain::chain"
NEWDST = "tools::hashing::Hasher::<D>::new_with_dst"
READER = "tools::hashing::Hasher::<D>::finalize_to_reader"


def decode_chain(h):
    """(dst, [items]) of a hasher term, or None."""
    items = []
    while h.op == "call" and h.args[0] == CHAIN:
        items.append(h.args[3])
        h = h.args[2]
    if h.op == "call" and h.args[0] == NEWDST:
        return h.args[2], list(reversed(items))
    return None


def flatten(x):
    if x.op == "agg":
        r = []
        for y in x.args[2:]:
            r += flatten(y)
        return [x] + r
    return [x]


def readers(t):
    out = []
    for x in walk(t):
        if x.op == "call" and x.args[0] == READER:
            out.append(x)
    return out


class ZCanon(Canon):
    """canonicaliser that remembers how the code spells a few leaf calls"""

    def modulus_term(self, setup):
        return self.spelled("paillier::ring_pedersen::RPParams::<P>::modulus", setup)

    def pk_modulus(self, pk):
        return self.spelled("paillier::keys::PublicKeyPaillier::<P>::modulus", pk)

    def root_term(self, prime_bits):
        e = psub(prime_bits, const(2))
        for x in list(self.memo.values()):
            if isinstance(x, T) and x.op == "call" and x.args[0].endswith("::shl") and x.args[2] is const(1) and x.args[3] is e:
                return x
        raise Missing("1 << (PRIME_BITS - 2)")

    # membership in the multiplicative group: gcd(x, N) = 1, is_invertible, invert().is_some()
    def unit(self, *a):
        def f(x, i):
            if i == len(a):
                f_ = self.ops.get("__unit__")
                r = f_(self, x) if f_ else None
                return r if r is not None else atom(mk0("call", "unit", "", *sorted(x, key=lambda t: t.id)))
            return lift(a[i], lambda y: f(x + [y], i + 1))

        x, m = a[0], a[1] if len(a) > 1 else None
        if m is not None and m.op == "call" and m.args[0].endswith("::modulus"):
            if x.op == "call" and x.args[0] == RETR and modkey(x.args[2]) is m.args[2]:
                return self.unit(x.args[2])
        return tobool(f([], 0))

    def canon1(self, t):
        if t.op == "is" and t.args[1] == "core::option::Option" and t.args[2] in (0, 1):
            def f(x):
                if x.op == "call" and x.args[0] == "crypto_bigint::Invert::invert":
                    u = self.unit(x.args[2])
                    return u if t.args[2] else b_not(u)
                return tm.REBUILD["is"](x, *t.args[1:])

            return lift(self.canon(t.args[0]), f)
        if t.op == "call" and t.args[0] == "uint::traits::IsInvertible::is_invertible":
            return self.unit(*[self.canon(x) for x in t.args[2:]])
        if t.op == "fld" and t.args[1] in ("base_value", "base_randomizer"):
            return lift(self.canon(t.args[0]), lambda x: mk0("call", RP + t.args[1], "", x) if x.op != "agg" else fld(x, t.args[1]))
        return Canon.canon1(self, t)

    def eqp(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.args[0] == "crypto_bigint::Gcd::gcd" and y is const(1):
                return self.unit(*x.args[2:])
        return Canon.eqp(self, a, b)

    def spelled(self, fn, arg):
        for x in list(self.memo.values()):
            if isinstance(x, T) and x.op == "call" and x.args[0] == fn and x.args[2] is arg:
                return x
        raise Missing(f"{fn}({show(arg, 4)})")


# ---------------------------------------------------------------- obligations
from .obligations import Ob  # noqa: E402


class Missing(Exception):
    pass


RETR = "crypto_bigint::modular::Retrieve::retrieve"
RP = "paillier::ring_pedersen::RPParams::<P>::"


def modkey(v):
    ks = set()
    for m in pol(v):
        for a, e in m:
            if a.op == "call" and a.args[0] in ("monty", "crt"):
                ks.add(a.args[2])
            elif a.op == "call" and a.args[0] in (RP + "base_value", RP + "base_randomizer"):
                ks.add(a.args[2])
            elif a.op == "call" and a.args[0] == "mpow":
                ks.add(modkey(a.args[2]))
            else:
                ks.add(None)
    return ks.pop() if len(ks) == 1 else None


def given(acc, pc):
    """acc, when no iteration of the prover aborted"""
    facts = {}
    for a, p in conjuncts(pc) or []:
        if not p and a.op == "exists":
            facts.setdefault(a.args[0], []).append(a)
    out = TRUE
    for a, p in conjuncts(acc) or [(None, None)]:
        if a is None:
            return acc
        lit = node(a, TRUE, FALSE)
        if not p and a.op == "exists":
            iv = fresh_iv()
            c = tobool(subst(a.args[2], {a.args[1]: iv}))
            for f in facts.get(a.args[0], []):
                c = b_and(c, b_not(tobool(subst(f.args[2], {f.args[1]: iv}))))
            lit = exists(a.args[0], iv, c)
        out = b_and(out, lit if p else b_not(lit))
    return out


def clash(m, seen):
    """what else may be masked by the same sample: one of the same call, in the same step of its loops"""
    for x, nm in seen.items():
        if x.args[2] == m.args[2] and not any(is_const(a) and is_const(b) and a is not b for a, b in zip(x.args[3], m.args[3])):
            return nm


class Proof:
    """Base: subclasses describe one proof system."""

    name = dst = None
    struct = None
    new_path = verify_path = None
    new_args = verify_args = ()
    rep = None  # assoc const naming the number of repetitions

    def __init__(self, F):
        self.F = F
        self.obs = []
        self.funcs = set()

    # -- conveniences
    def pub(self, n):
        return fld(IN("public"), n)

    def sec(self, n):
        return fld(IN("secret"), n)

    def me(self, n):
        return fld(IN("self"), n)

    def fn(self, path):
        fs = self.F.by_path.get(path)
        if not fs:
            raise Missing(path)
        return fs[0]

    def run(self, path, roles, over=None):
        """analyse a function with its arguments named by role"""
        f = self.fn(path)
        if f["body"]["argc"] != len(roles):
            raise Missing(f"{path}: expected {len(roles)} arguments")
        vf = VF(self.F, ZK_LEAVES)
        args = []
        for r in roles:
            if over and r in over:
                args.append(over[r])
            elif r == "rng":
                args.append(mk0("rng"))
            else:
                args.append(IN(r))
        res = vf.run(f, args)
        self.funcs |= set(vf.analysed)
        return vf, res

    def ob(self, prop, key, ok, where, detail=""):
        self.obs.append(Ob(prop, f"{self.name}:{key}", bool(ok), where, detail))

    def keys(self):
        """ciphertexts whose key is fixed by the statement: atom -> key"""
        return {}

    def lengths(self):
        """sequence terms of the proof that must have the prescribed length: term -> number"""
        return {}

    def honest_ops(self):
        return {}

    def rand_keys(self):
        """secret randomizers of the statement: atom -> key"""
        return {}

    def units(self):
        """elements that acceptance requires to be invertible: name -> (term or function of the repetition, modulus)"""
        return {}

    def honest_unit(self, C, a):
        """Is the element a unit in an honest run?"""
        x, m = (a[0], None) if len(a) == 1 else a
        if m is not None:
            if x.op == "call" and x.args[0].endswith("::modulus"):
                x, m = m, x
            if not (m.op == "call" and m.args[0].endswith("PublicKeyPaillier::<P>::modulus")):
                return None
            pk = m.args[2]
            keys = {C(k): C(v) for k, v in self.rand_keys().items()}
            if x.op == "fld" and x.args[1] == "0":
                for b in gparts(x.args[0]):
                    if keys.get(b) is not pk and not is_fresh(b, "randomizer", pk):
                        return None
                return TRUE
            return None
        if x.op == "fld" and x.args[1] in ("0", "ciphertext") and key_of(x.args[0]) is not None:
            return TRUE
        return None

    # -- main
    def check(self):
        alg.STRUCTS |= {p for p, a in self.F.adts.items() if a["kind"] == "Struct"}
        alg.KEYOF.clear()
        alg.KEYOF.update(self.keys())
        try:
            self.check_verify()
            self.check_prover()
        except Missing as e:
            for p in ("C01", "C02", "C03", "C04", "C05", "C06"):
                self.ob(p, "anchor", False, str(e), "function of the proof system not found in the current source")
        return self.obs

    def verify_ops(self):
        return {}

    def check_verify(self):
        W = self.verify_path
        vf, res = self.run(W, self.verify_args)
        C = ZCanon(ops=self.verify_ops())
        acc0 = self.acc_raw = C.boolc(res.ret)
        # C01 challenge compared and bound
        e_field = self.challenge_field()
        found = None
        for a, pos_ in conjuncts(acc0):
            if not pos_:
                continue
            for rd in readers(a):
                X = self.challenge_form(rd, C)
                if X is None:
                    continue
                if C.eqp(e_field, X) is node(a, TRUE, FALSE) or (a.op == "eq" and {a.args[0], a.args[1]} == {e_field, X}):
                    found = (rd, X)
                    break
            if found:
                break
        self.ob("C01", "challenge-recomputed", found, W,
                "acceptance requires the stored challenge to equal the value derived from the hash of the transcript")
        if not found:
            # fall back to any reader in the accept condition so that the other obligations are judged
            for rd in readers(acc0):
                X = self.challenge_form(rd, C)
                d = decode_chain(rd.args[2])
                if X is not None and d and d[0] is self.dstterm():
                    found = (rd, X)
                    break
        if not found:
            raise Missing(f"{W}: no Fiat-Shamir challenge")
        rd, X = found
        d = decode_chain(rd.args[2])
        self.ob("C01", "dst", d is not None and d[0] is self.dstterm(), W, f"domain tag {self.dst!r}")
        items = []
        for it in d[1] if d else []:
            items += flatten(it)
        for nm, it in self.items().items():
            it = C(it)
            self.ob("C01", f"binds:{nm}", it in items, W, f"hashed item {show(it, 6)}")
        # definitions that acceptance guarantees
        defs = {e_field: X} if found else {}
        C1 = ZCanon(defs=dict(defs), ops=self.verify_ops())
        acc1 = C1.boolc(res.ret)
        for nm, (s, n) in self.lengths().items():
            ok = implies(acc1, C1.eqp(length(s), n))
            self.ob("C04", f"length:{nm}", ok, W, f"acceptance requires len({show(s, 6)}) = {show(n, 6)}")
            defs[length(s)] = n
        if self.rep is not None:
            self.ob("C04", "challenge-count", self.rep_ok(X, C), W, "number of challenge bits is the security parameter")
        C2 = ZCanon(defs=defs, ops=self.verify_ops())
        acc = C2.boolc(res.ret)
        env = dict(e=C2(X), e0=X)
        for nm, (arg, bound) in self.ranges(env).items():
            self.require("C03", acc, C2, f"range:{nm}", lambda iv: atom(mk0("call", INRANGE, self.range_ty(acc0, arg), *[C2(q) for q in (arg if not callable(arg) else arg(iv), bound)])), W,
                         f"|{nm}| bounded by 2^({show(bound, 8)})", per_iter=callable(arg))
        for nm, (mk, per) in self.equations(env, C2).items():
            self.require(self.eq_prop(nm), acc, C2, f"eq:{nm}", mk, W, "", per_iter=per)
        for nm, (x, m) in self.units().items():
            self.require("C02", acc, C2, f"unit:{nm}", lambda iv: C2.unit(*[C2(q) for q in (x(iv) if callable(x) else x, m) if q is not None]), W,
                         f"{nm} is an invertible element", per_iter=callable(x))
        # every component of the proof takes part
        used = set(x for x in walk(acc0))
        for p, t in self.components().items():
            ok = self.mentions(acc0, p)
            self.ob("C02", f"uses:{p}", ok, W, f"proof component {p} takes part in the acceptance condition")

    def eq_prop(self, nm):
        return "C02"

    def components(self):
        out = {}
        self._comp(self.struct, (), out)
        return out

    def _comp(self, adt, path, out, depth=0):
        for f in self.F.adt_fields(adt):
            out[".".join(path + (f,))] = None
        for sub, adt2 in self.substructs.items():
            for f in self.F.adt_fields(adt2):
                out[sub + "[]." + f] = None

    substructs = {}

    def mentions(self, t, p):
        if "[]." in p:
            seqn, f = p.split("[].")
            base = self.seqterm(seqn)
            return contains(t, lambda x: x.op == "fld" and x.args[1] == f and x.args[0].op == "elem" and x.args[0].args[0] is base)
        x = self.me(p)
        return contains(t, lambda y: y is x)

    def seqterm(self, n):
        return self.me(n)

    def dstterm(self):
        return mk0("c", self.dst) if not isinstance(self.dst, T) else self.dst

    def range_ty(self, acc, arg):
        """type arguments are part of opaque calls: take them from the code (any width is fine)"""
        a0 = arg(mk0("iv", -1)) if callable(arg) else arg
        leaf = a0.args[1] if a0.op == "fld" else None
        for x in walk(acc):
            if x.op == "call" and x.args[0] == INRANGE:
                y = x.args[2]
                if y is a0 or y.op == "fld" and a0.op == "fld" and y.args[1] == leaf:
                    return x.args[1]
        return "?"

    def require(self, prop, acc, C, key, mk, where, detail, per_iter=False):
        if not per_iter:
            want = mk(None)
            ok = implies(acc, want)
            self.ob(prop, key, ok, where, detail or f"acceptance requires {show(want, 10)[:300]}")
            return
        n = C(self.repterm())
        iv = fresh_iv()
        want = tobool(mk(iv))
        # bodies of all universally quantified facts over the same index range
        bad = FALSE
        for a, pos_ in conjuncts(acc):
            if a.op == "exists" and not pos_ and a.args[0] is n:
                bad = b_or(bad, tobool(C(subst(a.args[2], {a.args[1]: iv}))))
        ok = implies(b_and(b_not(bad), self.iter_facts(acc, C, iv)), want)
        self.ob(prop, key, ok, where, detail or f"for every repetition i < {show(n, 6)}, acceptance requires {show(want, 10)[:300]}")

    def iter_facts(self, acc, C, iv):
        return TRUE

    def check_prover(self):
        W = self.new_path
        vf, res = self.run(W, self.new_args)
        ret = res.ret
        Cp = ZCanon(ops=self.prover_ops())
        self.ret_raw = Cp(ret)
        self.check_masks(ret, Cp, W)
        # C05: substitute into the verifier
        vf2, r2 = self.run(self.verify_path, self.verify_args, over={"self": ret})
        ops = {INRANGE: self.honest_range, SINRANGE: self.honest_range}
        ops["__unit__"] = self.honest_unit
        ops.update(self.prover_ops())
        ops.update(self.honest_ops())
        C = ZCanon(defs={}, ops=ops)
        for k, v in self.witness().items():
            C.defs[k] = C(v)
        acc = C.boolc(r2.ret)
        acc = restrict(acc, b_and(self.honest_facts(C), self.hashed_facts(C))) if acc is not TRUE else acc
        acc = given(acc, C.boolc(res.pc)) if acc is not TRUE else acc
        where = f"{W} -> {self.verify_path}"
        if acc is TRUE:
            self.ob("C05", "complete", True, where, "the verifier's condition reduces to true on the prover's output")
        else:
            bad = [("" if p else "not ") + show(a, 9)[:400] for a, p in conjuncts(acc)] or [show(acc, 9)[:600]]
            for b in bad[:4]:
                pass
            self.ob("C05", "complete", False, where, "left over: " + " AND ".join(bad)[:1500])
        for v, nm, w in ((vf, "prover", W), (vf2, "verifier", self.verify_path)):
            for ab in v.aborts:
                c = C.boolc(ab.cond)
                c = restrict(c, self.honest_facts(C)) if c not in (TRUE, FALSE) else c
                if c is FALSE or self.abort_ok(ab, c):
                    continue
                self.ob("C05", f"{nm}-abort:{ab.kind}", False, f"{ab.fn} {ab.sp}", f"honest run may abort: {ab.what} when {show(c, 8)[:400]}")
        n = 0
        for v, nm, w in ((vf, "prover", W), (vf2, "verifier", self.verify_path)):
            for pc, name, args, site in v.events:
                if name != ASSERTRANGE:
                    continue
                n += 1
                c = b_and(C.boolc(pc), b_not(C.boolc(mk0("call", SINRANGE, "", *args))))
                c = restrict(c, self.honest_facts(C)) if c not in (TRUE, FALSE) else c
                if c is not FALSE:
                    self.ob("C05", f"{nm}-range:{show(C(args[0]), 6)}", False, f"{site[0]} {site[2]}", f"aborts on a witness within the documented range: requires |{show(C(args[0]), 6)}| to have exponent {show(C(args[1]), 6)} when {show(c, 6)[:300]}")
        self.ob("C05", "range-assertions", True, where, f"{n} range assertions hold for every witness in the documented ranges")
        self.ob("C05", "no-abort", True, where, f"{len(vf.aborts) + len(vf2.aborts)} abort sites considered")
        # prover derives the challenge from the same data (C01 for the prover)
        rds = [x for x in readers(Cp(ret))]
        ok = False
        for rd in rds:
            d = decode_chain(rd.args[2])
            if d and d[0] is self.dstterm():
                ok = True
        self.ob("C01", "prover-dst", ok, W, "the prover's challenge comes from the proof's own transcript")

    def prover_ops(self):
        return {}

    def hashed_facts(self, C):
        """the prover has hashed the points of the statement: none is the identity, which has no representation to hash"""
        r = TRUE
        for it in self.items().values():
            if isinstance(it, T) and it.op == "fld":
                r = b_and(r, b_not(tobool(C(zero(Gr(it))))))
        return r if r is not FALSE else TRUE

    def honest_facts(self, C):
        return TRUE

    def secret_ranges(self):
        """documented ranges of the witnesses: name -> exponent"""
        return {}

    def honest_range(self, c, ty, a):
        """Range literals on an honest response, or on a witness that has a documented range."""
        z, bound = a
        for nm, r in self.secret_ranges().items():
            if c(self.sec(nm)) is z and self.at_least(bound, c(r)):
                return TRUE
        return mask_in_range(c, ty, a)

    def at_least(self, a, b):
        """a >= b whatever the values of the (non-negative) security parameters, given that l' >= l"""
        d = dict(pol(psub(a, b)))
        lp, l = (((SP_("LP_BOUND"), 1),), ((SP_("L_BOUND"), 1),))
        k = d.get(l, 0)
        if k < 0:
            d[lp] = d.get(lp, 0) + k
            d[l] = 0
        return all(v >= 0 for v in d.values())

    def abort_ok(self, ab, c):
        return False

    def repterm(self):
        return self.rep

    def rep_ok(self, X, C):
        return True

    # masks -----------------------------------------------------------
    def field_of(self, ret, C, nm):
        """value of response nm in the prover's output and whether it is per repetition"""
        if "[]." in nm:
            s, f = nm.split("[].")
            sq = C(fld(ret, s)) if s else C(ret)
            iv = fresh_iv()
            return C(fld(elem(sq, iv), f)) if f else C(elem(sq, iv)), iv
        return C(fld(ret, nm)), None

    def check_masks(self, ret, C, W):
        seen = {}
        env = {}
        e = None
        for rd in readers(C(ret)):
            d = decode_chain(rd.args[2])
            if d and d[0] is self.dstterm():
                e = self.challenge_form(rd, C)
        env["e"] = e
        env["ret"] = ret
        env["C"] = C
        for nm, (kind, args, part) in self.masks(env).items():
            v, iv = self.field_of(ret, C, nm)
            env[nm] = v
            s = part(iv) if callable(part) else part
            if isinstance(s, Gr) or isinstance(s, T) and s.op == "grp":
                m = gsub(v, s.t if isinstance(s, Gr) else s)
            else:
                m = psub(v, s.t if isinstance(s, Rg) else s)
            args = [C(a) for a in (args(env) if callable(args) else args)]
            good = is_fresh(m, kind, *args)
            if good and iv is not None:
                good = any(contains(x, lambda y: y is iv) for x in m.args[3] if isinstance(x, T)) or iv in m.args[3]
            self.ob("C06", f"mask:{nm}", good, W,
                    f"{nm} minus its secret part must be one fresh {kind}({', '.join(show(a, 6) for a in args)}); it is {show(m, 8)[:300]}")
            if good:
                k = clash(m, seen)
                self.ob("C06", f"distinct:{nm}", k is None, W, f"mask of {nm} also masks {k}" if k is not None else "mask is used for this response only")
                seen.setdefault(m, nm)

    def masks(self, env):
        return {}

